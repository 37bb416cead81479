SPECIFICATION GSpec
CONSTANTS Mode = "small" MaxOps = 4 Hashes = {"h1", "h2"} Vals = {1, 2} Heights = {1, 2} Variants = {1, 2} Faults = FALSE
HeightOf <- HeightFun
INVARIANTS IndexAgrees
VIEW view
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
