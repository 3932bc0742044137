SPECIFICATION Spec
CONSTANTS Cap = 3
          Low = 1
          Max = 4
INVARIANTS NotMissed GivenUp Conserved
PROPERTIES Results WaitsOnly GetsOn
CHECK_DEADLOCK FALSE
