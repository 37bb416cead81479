SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 20
CHECK_DEADLOCK FALSE
