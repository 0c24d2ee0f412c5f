CONSTANTS B = 6  LF = 2  W = 24  MaxChunk = 14  MaxTotal = 20  MaxResults = 2  Mutant = "none"
SPECIFICATION Spec
INVARIANTS TypeOK CountRight Erased
PROPERTY Refines
CHECK_DEADLOCK FALSE
