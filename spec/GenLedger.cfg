SPECIFICATION GSpec
CONSTANTS TransferCost = 210 DeployCost = 2100 MaxTx = 5 MaxBlocks = 6 Mode = "random"
INVARIANTS NoOverdraft Conserved NoncesCount RootsInjective RegistryKept
CHECK_DEADLOCK FALSE
