SPECIFICATION Spec
CONSTANTS
 Speed = 20
 MinPoints = 20
 Thr = 2
 G = 3
 MaxLen = 3
 Eps = 1
 B = 2
 Block = {1, 3, 19}
INVARIANTS Conserved Bounded Candidates Kept Forgotten
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
