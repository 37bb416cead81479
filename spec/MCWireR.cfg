SPECIFICATION GSpec
CONSTANTS Mode = "route" MaxOps = 0 Depth = 0
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
