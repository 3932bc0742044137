SPECIFICATION MSpec
CONSTANTS Tasks = {1, 2, 3}
          Prios = {0, 2}
          Fixed = FALSE
INVARIANTS Sorted CurFirst Queue Spread
PROPERTY Refines
CHECK_DEADLOCK FALSE
