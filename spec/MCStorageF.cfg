SPECIFICATION GSpec
CONSTANTS Mode = "small" MaxOps = 4 Hashes = {"h1"} Vals = {1} Heights = {1, 2, 3} Variants = {1} Faults = TRUE
HeightOf <- HeightFun
INVARIANTS IndexAgrees LatestReachable
PROPERTIES PastKept
VIEW view
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
