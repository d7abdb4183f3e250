SPECIFICATION TSpec
CONSTANTS Views <- NoSet
 Messages <- NoSet
 Handles <- HandlesDef
 MaxUp = 0
 MaxInputs = 0
INVARIANT TSafe
