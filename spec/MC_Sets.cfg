SPECIFICATION Spec
CONSTANTS
  V = 5
INVARIANTS AlwaysSorted PrefixExact Correct Algebra Facets
PROPERTY Ends
CONSTRAINT Emit
