SPECIFICATION Spec
CONSTANTS Buf = 2
          Cap = 2
          Low = 0
          Total = 2
INVARIANTS Returned Resting Bounded
CHECK_DEADLOCK FALSE
