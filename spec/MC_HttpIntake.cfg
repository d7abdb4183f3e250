SPECIFICATION Spec
CONSTANTS
  Wires <- MCWires
  Ends <- MCEnds
  Lengths <- MCLengths
  MaxLen = 5
  BodyLen = 3
INVARIANTS HeadIsFirstEmptyLine RefusedOnlyWithoutEmptyLine BodyIsPrefix BodyIsWhole ErrorOnlyOnReset NothingStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
