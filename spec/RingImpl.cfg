SPECIFICATION Spec
CONSTANT MaxCap = 7
INVARIANTS Offers Kept Stored
CHECK_DEADLOCK FALSE
