SPECIFICATION Spec
CONSTANTS
  N = 3
  Span = 3
  Lims = {1, 4, 9}
INVARIANTS Result Partial Triangle
PROPERTY Terminates
CONSTRAINT Emit
