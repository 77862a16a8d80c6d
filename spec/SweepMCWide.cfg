SPECIFICATION Spec
INVARIANTS TypeOk InvTiles InvFront InvUsed InvConstraints InvResult NotStuck
PROPERTY ActForced
CONSTANTS W = 3 H = 2 NMin = 3 NMax = 4 SMax = 1
CHECK_DEADLOCK FALSE
