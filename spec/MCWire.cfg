SPECIFICATION GSpec
CONSTANTS Mode = "rpc" MaxOps = 0 Depth = 2
INVARIANTS OwnAnswer DistinctIds Settled
PROPERTIES OncePerCall
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
