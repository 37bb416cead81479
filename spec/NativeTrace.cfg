SPECIFICATION TSpec
CONSTANTS TransferCost = 210 DeployCost = 2100
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
