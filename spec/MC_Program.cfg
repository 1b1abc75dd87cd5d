SPECIFICATION Spec
CONSTANTS
  Opts = {"epsilon", "dimensions", "complexType", "outputFile", "mode", "pipeline", "preprocessor"}
  MaxOpts = 2
  Clouds = {"square", "line", "one", "empty"}
  Modes = {"standard", "fast"}
CONSTRAINT Emit
INVARIANTS Result Correct OneRowPerStage OptionsOnly Covers
PROPERTY Ends
