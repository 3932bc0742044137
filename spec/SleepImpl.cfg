SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3, 4}
          Max = 4
          Durs = {1, 2, 3}
INVARIANTS RestOK NoEarly
PROPERTY Refines
CHECK_DEADLOCK FALSE
