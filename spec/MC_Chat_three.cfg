SPECIFICATION Spec
CONSTANTS u1 = u1
 u2 = u2
 u3 = u3
 Users = {u1, u2, u3}
 MaxSaid = 1
 MaxRegister = 1
SYMMETRY Alike
INVARIANT Safe
CHECK_DEADLOCK FALSE
