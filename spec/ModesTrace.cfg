SPECIFICATION TraceSpec
CONSTANTS
 W = 200
 WNaive = 50
 Report = 100
INVARIANT Accepted
