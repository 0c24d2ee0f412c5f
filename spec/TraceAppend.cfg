SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK TRUE
ALIAS Alias
