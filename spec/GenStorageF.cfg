SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 25 Hashes = {"h1", "h2", "h3", "h4"} Vals = {1, 2, 3, 4, 5, 6, 7, 8, 9} Heights = {1, 2, 3, 4, 5, 6, 7} Variants = {1, 2} Faults = TRUE
HeightOf <- HeightFun
INVARIANTS LatestReachable
CHECK_DEADLOCK FALSE
