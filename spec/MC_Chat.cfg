SPECIFICATION Spec
CONSTANTS Users = {1, 2}
 MaxSaid = 1
 MaxRegister = 2
INVARIANT Safe
PROPERTIES AllShown Removed
CHECK_DEADLOCK FALSE
