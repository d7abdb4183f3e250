SPECIFICATION Spec
CONSTANTS Elements <- Deep
 Spare = 99
INVARIANT Safe
CHECK_DEADLOCK FALSE
