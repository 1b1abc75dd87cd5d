SPECIFICATION TraceSpec
CONSTANTS
 W = 50
 Report = 100
INVARIANT Accepted
