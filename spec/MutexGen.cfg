INIT GInit
NEXT GNext
CONSTANTS Tasks = {1, 2, 3, 4}
          Mutexes = {1, 2}
          Strays = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
