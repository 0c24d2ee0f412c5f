SPECIFICATION LSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK TRUE
ALIAS Alias
