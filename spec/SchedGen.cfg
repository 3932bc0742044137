INIT GInit
NEXT GNext
CONSTANTS Tasks = {1, 2, 3, 4, 5}
          Prios = {0, 1, 2, 8, 15, 99}
INVARIANT Emit
CHECK_DEADLOCK FALSE
