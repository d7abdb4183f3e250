SPECIFICATION Spec
CONSTANTS
  Frames <- OneWrite
  Room = 4
  Locked = FALSE
INVARIANTS Unmixed InOrder
PROPERTY Arrives
CHECK_DEADLOCK FALSE
