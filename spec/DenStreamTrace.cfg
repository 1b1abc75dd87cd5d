SPECIFICATION TraceSpec
CONSTANTS
 Speed = 20
 MinPoints = 20
 Thr = 2
INVARIANT Accepted
