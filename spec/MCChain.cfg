SPECIFICATION GSpec
CONSTANTS Mode = "script" MaxOps = 14 Txs = 9
INVARIANTS Promise
PROPERTIES Grows
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
