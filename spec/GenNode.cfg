SPECIFICATION GSpec
CONSTANTS TransferCost = 210 DeployCost = 2100 Mode = "random" MaxSteps = 10 MaxDown = 2

ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
