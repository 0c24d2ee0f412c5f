SPECIFICATION TSpec
INVARIANTS FirstResultPublished FirstResultHmac
POSTCONDITION TraceAccepted
CHECK_DEADLOCK TRUE
ALIAS Alias
