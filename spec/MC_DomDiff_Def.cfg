SPECIFICATION Spec
CONSTANTS Trees <- TreesDef
 Starts = {0, 1, 4}
INVARIANT Safe
CHECK_DEADLOCK FALSE
