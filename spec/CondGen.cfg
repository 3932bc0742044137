INIT GInit
NEXT GNext
CONSTANTS Tasks = {1, 2, 3, 4}
          Mutexes = {1}
          Conds = {1}
INVARIANT Emit
CHECK_DEADLOCK FALSE
