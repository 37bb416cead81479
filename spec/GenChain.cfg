SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 30 Txs = 9
CHECK_DEADLOCK FALSE
