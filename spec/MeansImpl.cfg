SPECIFICATION Spec
CONSTANTS
  Kinds = {"mem", "page", "fd"}
  Things = {1, 2, 3}
  Careless = FALSE
INVARIANTS Exact Never
CHECK_DEADLOCK FALSE
