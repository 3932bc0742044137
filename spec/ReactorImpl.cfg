SPECIFICATION Spec
CONSTANTS Tasks = {1, 2}
          Fds = {1, 2}
          Batch = 1
          Intr = 1
          Evs = {{"in"}, {"in", "out"}}
INVARIANTS CanReturn QuietOK
CHECK_DEADLOCK FALSE
