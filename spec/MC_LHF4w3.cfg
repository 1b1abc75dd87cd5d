SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxW = 3
  Dims = {2, 3}
  Lims = {3, 4}
  Closed = {FALSE}
  Inputs <- AllInputs
INVARIANTS ComplexExact H0Count BarsSound PivotsDistinct ResultIsOperator ResultIsPersistentHomology SurvivorsAreRanks
CONSTRAINT EmitC
