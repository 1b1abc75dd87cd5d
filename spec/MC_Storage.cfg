SPECIFICATION Spec
CONSTANTS
  N = 4
  Len1 = 7
  Mats <- TwoMats
  Kind = "simplexTree"
  Lim = 3
  Dim = 2
  Ops = {"I", "Q", "C", "D2"}
INVARIANTS FunctionOfInsertions IsRips ExpandedIsRips FaceClosed
PROPERTY QueriesArePure
CONSTRAINT Emit
