SPECIFICATION Spec
CONSTANTS
  MaxLen = 14
  MaxW = 9
  Report = 4
INVARIANTS Short Regular Every Closed
