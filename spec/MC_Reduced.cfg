SPECIFICATION Spec
CONSTANTS
  Opts = {"mode", "clusters", "dimensions"}
  MaxOpts = 3
  Clouds = {"square", "line", "twice", "one"}
  Modes = {"reduced"}
CONSTRAINT Emit
INVARIANTS Result Correct OneRowPerStage OptionsOnly Covers
