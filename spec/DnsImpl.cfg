SPECIFICATION ISpec
CONSTANTS Threads = {1, 2}
          Askers = {11, 12, 21}
          Queries = {1, 2}
          Helpers = {1}
          Sync = TRUE
          Once = TRUE
          Rounds = 2
          Refusals = 1
INVARIANTS Contained OneHelper InStep
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
