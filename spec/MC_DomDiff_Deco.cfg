SPECIFICATION Spec
CONSTANTS Trees <- TreesDeco
 Starts = {0, 2}
INVARIANT Safe
CHECK_DEADLOCK FALSE
