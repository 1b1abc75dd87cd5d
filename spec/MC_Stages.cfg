SPECIFICATION Spec
CONSTANTS
  Noise = 1
  Again = 1
  Names = {"distMatrix", "neighGraph", "rips", "fastPersistence", "fast", "persistence", "upscale", "boundary", "nosuch"}
CONSTRAINTS Bound Emit
INVARIANTS OnlyWhatRan OneRowEach Correct
PROPERTIES RowsOnlyGrow
