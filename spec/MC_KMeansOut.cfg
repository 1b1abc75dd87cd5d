SPECIFICATION Spec
CONSTANTS
  N = 3
  G = 2
  Ks = {1, 2, 3, 5}
  Iters = {1, 2, 4}
  AnyTie = TRUE
INVARIANTS Count Means Near Hull Covered
PROPERTY Ends
