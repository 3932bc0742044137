INIT GInit
NEXT GNext
CONSTANTS Touring = FALSE
          Tasks = {1, 2, 3, 4}
          Buffers = 1
          Ids = {1}
          WithSelect = TRUE
          WithEnd = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
