CONSTANTS Names = {0,1,2}  Depth = 9  Classes = {"e","s","f","x","l"}
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
