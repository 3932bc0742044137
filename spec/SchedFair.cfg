SPECIFICATION MSpec
CONSTANTS Tasks = {1, 2, 3}
          Prios = {1, 3, 8}
          Fixed = TRUE
INVARIANTS Sorted CurFirst Queue Spread
PROPERTY Turns
CHECK_DEADLOCK FALSE
