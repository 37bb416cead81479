SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 40 Depth = 0
CHECK_DEADLOCK FALSE
