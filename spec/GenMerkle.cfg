SPECIFICATION GSpec
CONSTANTS Mode = "random" MaxOps = 25 MaxLen = 40 Elems = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
CHECK_DEADLOCK FALSE
