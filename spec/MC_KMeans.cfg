SPECIFICATION Spec
CONSTANTS
  N = 4
  G = 3
  Ks = {1, 2, 3, 5}
  Iters = {1, 2, 12}
  AnyTie = FALSE
INVARIANTS Count Means Near Hull SettlesSoon
PROPERTY Ends
CONSTRAINT Emit
