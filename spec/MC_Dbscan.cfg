SPECIFICATION Spec
CONSTANTS
  N = 4
  G = 4
  Rads = {0, 4, 8}
  Mins = {1, 2, 3}
INVARIANTS Correct InRange NoiseIsNotCore
CONSTRAINT Emit
