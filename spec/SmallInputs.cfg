SPECIFICATION Spec
INVARIANT Emit
CONSTANTS W = 2 H = 2 PMax = 9 LMax = 0 HMax = 3 SMax = 9 NMax = 9
CHECK_DEADLOCK FALSE
