SPECIFICATION Spec
CONSTANTS
 W = 3
 Old = 2
 Pos = {0, 1, 2, 6, 14}
 MaxLen = 7
INVARIANTS Size KeysGrow OneForOne Admission OldestOut Joins NewLabel Grows OutdatedFirst
CHECK_DEADLOCK FALSE
