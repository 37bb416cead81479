SPECIFICATION GSpec
CONSTANTS Mode = "small" MaxOps = 1 MaxLen = 6 Elems = {0, 1, 2}
INVARIANTS Binding Proofs
VIEW view
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
