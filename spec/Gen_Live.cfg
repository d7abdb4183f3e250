SPECIFICATION GSpec
CONSTANTS Views <- ViewsDef
 Messages <- MessagesDef
 Handles = {1, 2}
 MaxUp = 8
 MaxInputs = 6
CHECK_DEADLOCK FALSE
