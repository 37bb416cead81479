SPECIFICATION GSpec
CONSTANTS TransferCost = 210 DeployCost = 2100 Mode = "all" MaxSteps = 3 MaxDown = 1
INVARIANTS HasPrefix Once Conserved NoneLost
PROPERTY GrowsG
CHECK_DEADLOCK FALSE
VIEW Seen
