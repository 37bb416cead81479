SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 40 Keys = {"a1", "a2", "c1", "s1", "s2"} Vals = {1, 2, 3, 4} Handles = {"A", "B"} MaxRoots = 100
INVARIANTS RootsInjective
CHECK_DEADLOCK FALSE
