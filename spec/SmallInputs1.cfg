SPECIFICATION Spec
INVARIANT Emit
CONSTANTS W = 3 H = 2 PMax = 12 LMax = 0 HMax = 3 SMax = 2 NMax = 12
CHECK_DEADLOCK FALSE
