SPECIFICATION Spec
CONSTANTS IB = 2
          OB = 2
          Buf = 1
          Total = 4
INVARIANTS Count Rest
PROPERTY ReturnStep
CHECK_DEADLOCK FALSE
