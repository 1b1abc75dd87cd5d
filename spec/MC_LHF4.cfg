SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxW = 2
  Dims = {1, 2, 3}
  Lims = {2, 3}
  Closed = {TRUE, FALSE}
  Inputs <- AllInputs
INVARIANTS ComplexExact FaceClosed ComponentsPartition H0Count BarsSound PivotsDistinct ResultIsOperator ResultIsPersistentHomology SurvivorsAreRanks
PROPERTIES NeverSplit Terminates
