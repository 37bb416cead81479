SPECIFICATION GSpec
CONSTANTS Mode = "small" MaxOps = 4
INVARIANTS Readings
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
