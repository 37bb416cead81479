SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 14
INVARIANTS Truth OnlyWellFormed
CHECK_DEADLOCK FALSE
