SPECIFICATION TraceSpec
CONSTANTS
 W = 3
 Old = 25
 Report = 100
INVARIANT Accepted
