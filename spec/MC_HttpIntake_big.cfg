SPECIFICATION Spec
CONSTANTS
  Wires <- MCWires
  Ends <- MCEnds
  Lengths <- MCLengths
  MaxLen = 7
  BodyLen = 5
INVARIANTS HeadIsFirstEmptyLine RefusedOnlyWithoutEmptyLine BodyIsPrefix BodyIsWhole ErrorOnlyOnReset NothingStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
