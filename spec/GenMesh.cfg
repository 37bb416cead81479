SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxKills = 1 Sizes = {0, 1, 100, 70000, 1000000}
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
