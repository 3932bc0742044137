SPECIFICATION Spec
CONSTANTS R = 2
          W = 2
          MaxR = 4
          MaxW = 4
INVARIANTS Results InOrder Sizes
CHECK_DEADLOCK FALSE
