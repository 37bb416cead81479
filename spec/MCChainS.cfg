SPECIFICATION GSpec
CONSTANTS Mode = "seq" MaxOps = 5 Txs = 3
INVARIANTS PromiseS
PROPERTIES Grows
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
