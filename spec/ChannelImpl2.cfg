SPECIFICATION Spec
CONSTANTS Tasks = {1, 2}
          Buffers = 2
          Ids = {1, 2}
          WithSelect = FALSE
          WithEnd = TRUE
INVARIANTS NoErr NoFull NoneStuck
PROPERTY Refines
CHECK_DEADLOCK FALSE
