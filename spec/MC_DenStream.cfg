SPECIFICATION Spec
CONSTANTS
 Speed = 2
 MinPoints = 2
 Thr = 2
 G = 3
 MaxLen = 6
 Eps = 1
 B = 2
 Block = {1}
INVARIANTS Conserved Bounded Candidates Kept Forgotten
CHECK_DEADLOCK FALSE
