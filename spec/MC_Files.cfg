SPECIFICATION Spec
CONSTANTS
  MaxRuns = 4
INVARIANTS Quiet Latest OnlyShared
