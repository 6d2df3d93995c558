SPECIFICATION Spec
CONSTANTS MaxExplicit = 125  MaxImplicit = 126  Amounts = {0,1,2,3,125,126,255}
INVARIANTS Bounded EmitAll
PROPERTY FailureKeeps
CHECK_DEADLOCK FALSE
