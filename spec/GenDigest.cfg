CONSTANTS Names = {0,1,2}  Depth = 14
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
