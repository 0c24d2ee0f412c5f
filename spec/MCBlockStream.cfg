CONSTANTS B = 6  LF = 2  W = 65536  MaxChunk = 14  MaxTotal = 20  MaxResults = 2
SPECIFICATION Spec
INVARIANTS BufShort Whole FoldAgrees
PROPERTY Refines
CHECK_DEADLOCK FALSE
