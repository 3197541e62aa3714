INIT Init
NEXT Next
INVARIANT Agree Matrices
CONSTANT N = 7
CONSTANT D = 5
