SPECIFICATION Spec
CONSTANT Tasks = {1, 2, 3, 4}
INVARIANTS Record NoneStuck
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
