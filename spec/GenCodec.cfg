SPECIFICATION GSpec
CONSTANTS Part = "objects" Mode = "random" MaxOps = 30 Base = {1}
CHECK_DEADLOCK FALSE
