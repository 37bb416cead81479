SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 50
CHECK_DEADLOCK FALSE
