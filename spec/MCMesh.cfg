SPECIFICATION GSpec
CONSTANTS Mode = "all" MaxKills = 1 Sizes = {100}
INVARIANTS Symmetric Sound Whole Decided
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
