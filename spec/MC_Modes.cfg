SPECIFICATION Spec
CONSTANTS
 Report = 2
 MaxLen = 9
 MaxW = 4
 MaxK = 3
INVARIANTS Windows EveryPoint ModeRules
PROPERTY Ends
