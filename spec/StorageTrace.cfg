SPECIFICATION TSpec
CONSTANTS HeightOf <- HeightFun
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
