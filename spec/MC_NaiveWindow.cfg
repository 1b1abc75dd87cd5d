SPECIFICATION Spec
CONSTANTS
 W = 3
 Report = 4
 Vals = {0, 1}
 MaxLen = 13
INVARIANTS LastPoints First Reported
CHECK_DEADLOCK FALSE
