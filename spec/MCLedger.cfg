SPECIFICATION GSpec
CONSTANTS TransferCost = 210 DeployCost = 2100 MaxTx = 2 MaxBlocks = 1 Mode = "small"
INVARIANTS NoOverdraft Conserved NoncesCount RootsInjective RegistryKept
PROPERTIES FeesPaid Atomic HistoryKept
VIEW view
ACTION_CONSTRAINT PrintBlocks
CHECK_DEADLOCK FALSE
