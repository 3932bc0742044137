SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3}
          Mutexes = {1, 2}
          Strays = 2
INVARIANTS Exclusive WaitersOK Heir QuietOK
PROPERTIES Refines Progress
CHECK_DEADLOCK FALSE
