SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3}
          Max = 3
INVARIANT Alive
PROPERTY Refines
CHECK_DEADLOCK FALSE
