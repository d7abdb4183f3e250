SPECIFICATION GSpec
CONSTANTS Users = {1, 2, 3, 4, 5, 6, 7}
 MaxSaid = 8
 MaxRegister = 2
CHECK_DEADLOCK FALSE
