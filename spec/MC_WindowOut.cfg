SPECIFICATION Spec
CONSTANTS
 W = 3
 Old = 25
 Pos = {0, 1, 2, 6, 14}
 MaxLen = 6
INVARIANTS Size KeysGrow OneForOne Admission OldestOut Joins NewLabel Grows OutdatedFirst
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
