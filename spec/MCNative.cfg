SPECIFICATION GSpec
CONSTANTS TransferCost = 210 DeployCost = 2100 Mode = "small" MaxOps = 5
INVARIANTS NNoOverdraft NRootsInjective
PROPERTIES NHistoryKept Moves NonceSteps RegKept RevertsToStash
CONSTRAINT SmallOnly
VIEW view
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
