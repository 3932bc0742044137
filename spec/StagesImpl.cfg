SPECIFICATION Spec
CONSTANTS Obj = {o1, o2, o3, o4}
          MaxRef = 2
SYMMETRY Symm
INVARIANTS Agree Counts Once Safe NoDangling
CHECK_DEADLOCK FALSE
