SPECIFICATION GSpec
CONSTANTS Mode = "small" MaxOps = 3
INVARIANTS Truth OnlyWellFormed
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
