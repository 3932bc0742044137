INIT GInit
NEXT GNext
CONSTANTS Tasks = {1, 2, 3}
          Fds = {0, 1, 2}
          Evs = {1, 4, 5}
INVARIANT Emit
CHECK_DEADLOCK FALSE
