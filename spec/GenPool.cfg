SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 30
CHECK_DEADLOCK FALSE
