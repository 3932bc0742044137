SPECIFICATION Spec
CONSTANTS Handles = {h1, h2, h3}
          Classes = {1, 2, 3}
          Limit = 3
          Blocks = {b1, b2, b3, b4, b5, b6}
          Large = 4
SYMMETRY Sym
INVARIANTS Fits Bound Found Once
CHECK_DEADLOCK FALSE
