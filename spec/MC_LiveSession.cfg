SPECIFICATION Spec
CONSTANTS Views <- ViewsQuick
 Handles = {h1}
 Messages <- MessagesQuick
 MaxUp = 2
 MaxInputs = 2
INVARIANT Safe
PROPERTIES GoneIsGone AppendOnly DroppedWhenLeft InputsAreTaken EverythingIsPainted
CHECK_DEADLOCK FALSE
