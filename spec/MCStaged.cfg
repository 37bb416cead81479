SPECIFICATION GSpec
CONSTANTS Mode = "small" MaxOps = 8 Keys = {"a1", "s1"} Vals = {1, 2} Handles = {"A"} MaxRoots = 2
INVARIANTS RootsInjective
PROPERTIES HistoryKept RevertDiscards KeepsView CommitsStashed
VIEW view
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
