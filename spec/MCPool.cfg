SPECIFICATION GSpec
CONSTANTS Mode = "seq" MaxOps = 4
INVARIANTS Sane
PROPERTIES NotAgain
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
