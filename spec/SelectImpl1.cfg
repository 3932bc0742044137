SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3}
          Buffers = 1
          Ids = {1}
          WithSelect = TRUE
          WithEnd = FALSE
INVARIANTS NoErr NoFull NoneStuck Lists
PROPERTY Refines
CHECK_DEADLOCK FALSE
