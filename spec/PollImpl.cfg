SPECIFICATION Spec
CONSTANTS
Fds = {0, 1}
Timeouts <- TO
INVARIANT Returned RestOK
CHECK_DEADLOCK FALSE
