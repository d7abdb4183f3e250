SPECIFICATION GSpec
CONSTANTS Clients = {1, 2, 3, 4, 5, 6}
 Calls <- CallsDef
 MaxCalls = 60
CHECK_DEADLOCK FALSE
