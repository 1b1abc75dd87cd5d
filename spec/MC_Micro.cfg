SPECIFICATION Spec
CONSTANTS
 G = 2
 MaxN = 3
 MaxTick = 3
 B = 2
INVARIANTS FromScratch Radius NonNegative PointLike Inside Weight
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
