INIT GInit
NEXT GNext
CONSTANTS Tasks = {1, 2, 3, 4, 5}
          Max = 30
          Durs = {1, 2, 3, 5}
INVARIANT Emit
CHECK_DEADLOCK FALSE
