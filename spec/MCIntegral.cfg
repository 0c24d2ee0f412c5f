SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS Invertible Exhaustive
CHECK_DEADLOCK FALSE
