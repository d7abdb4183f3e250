SPECIFICATION Spec
CONSTANTS Trees <- TreesQuick
 Starts = {0}
INVARIANT Safe
CHECK_DEADLOCK FALSE
