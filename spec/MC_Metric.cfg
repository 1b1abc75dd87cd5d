SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxW = 2
  Lims = {2, 3}
  Dims = {1, 2, 3}
INVARIANTS RenamingInvariant ScaleInvariant DimensionMonotone
