SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
          Atoms = {1}
          RefOrder = 0
          UnrefOrder = 4
          MaxRef = 2
          MaxUse = 2
INVARIANTS Right Rest
CHECK_DEADLOCK FALSE
