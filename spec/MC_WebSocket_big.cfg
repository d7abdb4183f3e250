SPECIFICATION Spec
CONSTANTS
  Alphabet <- MCAlphabet
  Outgoing <- MCOutgoing
  MaxFrames = 4
  MaxSends = 1
INVARIANTS C14_Delivered C15_Pongs C16_OneClose C16_Nothing C17_Errors C18_Sent
PROPERTY C19_Ends
CHECK_DEADLOCK FALSE
