SPECIFICATION Spec
CONSTANTS
  Frames <- OneWrite
  Room = 10
  Locked = FALSE
INVARIANTS Unmixed InOrder
PROPERTY Arrives
CHECK_DEADLOCK FALSE
