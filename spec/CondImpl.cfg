SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3}
          Mutexes = {1}
          Conds = {1}
INVARIANT ListOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
