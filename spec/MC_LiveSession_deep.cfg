SPECIFICATION Spec
CONSTANTS Views <- ViewsDef
 Handles = {h1, h2}
 Messages <- MessagesDef
 MaxUp = 2
 MaxInputs = 1
INVARIANT Safe
PROPERTIES GoneIsGone AppendOnly DroppedWhenLeft InputsAreTaken EverythingIsPainted
CHECK_DEADLOCK FALSE
