SPECIFICATION Spec
CONSTANTS Tasks = {1, 2}
          Cells = 10
          Size = 2
          MaxFrames = 5
INVARIANTS TopIsThere AllThere Apart GuardClean
CHECK_DEADLOCK FALSE
