SPECIFICATION Spec
CONSTANTS
  Frames <- TwoWrites
  Room = 2
  Locked = TRUE
INVARIANTS Unmixed InOrder
PROPERTY Arrives
CHECK_DEADLOCK FALSE
