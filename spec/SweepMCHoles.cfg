SPECIFICATION SpecHoles
INVARIANTS AllValid TypeOk InvTiles InvFront InvUsed InvConstraints InvResult NotStuck
PROPERTY ActForced
CONSTANTS More = FALSE W = 2 H = 2 NMin = 3 NMax = 4 SMax = 1
CHECK_DEADLOCK FALSE
