SPECIFICATION TraceSpec
INVARIANT Accepted
