SPECIFICATION Spec
CONSTANTS
  N = 3
  G = 3
  Rads = {0, 4, 6, 8}
INVARIANTS NothingLost OnlyInside NearestReachable Exact
PROPERTY Ends
CONSTRAINT Emit
