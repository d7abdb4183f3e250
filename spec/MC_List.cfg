SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 Calls <- CallsDef
 MaxCalls = 3
INVARIANT Safe
PROPERTIES Linearizable Answered
CHECK_DEADLOCK FALSE
