SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 Calls <- CallsFew
 MaxCalls = 4
INVARIANT Safe
PROPERTIES Linearizable Answered
CHECK_DEADLOCK FALSE
