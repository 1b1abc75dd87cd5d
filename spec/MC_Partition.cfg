SPECIFICATION Spec
CONSTANTS
  N = 3
  G = 2
  K = 2
INVARIANTS Agrees OnceEach InOrder Covers Twice RoundTrip
CONSTRAINT Emit
