SPECIFICATION Spec
CONSTANTS Elements <- Quick
 Spare = 99
INVARIANT Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
