SPECIFICATION Spec
CONSTANTS
  Frames <- Three
  Room = 12
  Locked = FALSE
INVARIANTS Unmixed InOrder
PROPERTY Arrives
CHECK_DEADLOCK FALSE
