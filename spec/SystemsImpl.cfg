SPECIFICATION ISpec
CONSTANTS Threads = {1, 2, 3}
          Per_ = FALSE
          Parts = 4
INVARIANTS NothingKept AllThere Restored NoFaultLost
PROPERTY Refines
CHECK_DEADLOCK FALSE
