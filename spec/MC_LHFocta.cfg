SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxW = 3
  Dims = {3}
  Lims = {5}
  Closed = {FALSE}
  Inputs <- OctaSmall
INVARIANTS ComplexExact H0Count BarsSound PivotsDistinct ResultIsOperator ResultIsPersistentHomology SurvivorsAreRanks
CONSTRAINT EmitC
