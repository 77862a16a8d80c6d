SPECIFICATION Spec
INVARIANT Emit
CONSTANTS W = 3 H = 3 PMax = 4 LMax = 1 HMax = 4 SMax = 1 NMax = 8
CHECK_DEADLOCK FALSE
