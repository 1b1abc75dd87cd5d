SPECIFICATION Spec
CONSTANTS
  R = 3
  C = 3
INVARIANTS SpanKept PivotsAreGrowth RankIsDim BasisRight RestIsZero
PROPERTY Ends
CONSTRAINT Emit
