SPECIFICATION Spec
CONSTANTS
  Frames <- TwoWrites
  Room = 10
  Locked = FALSE
INVARIANTS Unmixed InOrder
PROPERTY Arrives
CHECK_DEADLOCK FALSE
