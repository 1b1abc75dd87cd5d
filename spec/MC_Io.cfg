SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
INVARIANTS NothingLost NoEmptyRow RowsAreLines RoundTrip
CONSTRAINT Emit
