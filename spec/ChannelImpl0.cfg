SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3}
          Buffers = 0
          Ids = {1, 2}
          WithSelect = FALSE
          WithEnd = TRUE
INVARIANTS NoErr NoFull NoneStuck
PROPERTY Refines
CHECK_DEADLOCK FALSE
