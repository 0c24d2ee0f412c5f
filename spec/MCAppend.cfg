SPECIFICATION Spec
CONSTANTS
  Deep = 2
  Cap = 200
INVARIANT Holds
CHECK_DEADLOCK FALSE
POSTCONDITION Export
