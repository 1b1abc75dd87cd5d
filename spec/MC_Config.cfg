SPECIFICATION Spec
CONSTANTS
  N = 4
  Words = {"-e", "--epsilon", "-m", "--mode", "reduced", "sw", "7", "x", "-", "-a", "1", "-p"}
INVARIANTS AsDefined Untouched Given Precedence OrderFree
PROPERTY Ends
CONSTRAINT Emit
