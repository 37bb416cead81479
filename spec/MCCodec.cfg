SPECIFICATION GSpec
CONSTANTS Part = "objects" Mode = "small" MaxOps = 1 Base = {1, 2, 0}
INVARIANTS Bijective Decodable
VIEW view
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
