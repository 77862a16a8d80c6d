SPECIFICATION Spec
INVARIANTS TypeOk InvTiles InvFront InvUsed InvConstraints InvResult NotStuck
PROPERTY ActForced
CONSTANTS W = 2 H = 2 NMin = 5 NMax = 5 SMax = 1
CHECK_DEADLOCK FALSE
