INIT GInit
NEXT GNext
CONSTANTS Touring = FALSE
          Tasks = {1, 2, 3, 4}
          Buffers = 1
          Ids = {1}
          WithSelect = FALSE
          WithEnd = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
