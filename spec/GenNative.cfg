SPECIFICATION GSpec
CONSTANTS TransferCost = 210 DeployCost = 2100 Mode = "random" MaxOps = 60
INVARIANTS NNoOverdraft NRootsInjective
CHECK_DEADLOCK FALSE
