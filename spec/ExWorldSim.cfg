INIT WInit
NEXT WNext
CONSTANT Refused = TRUE

INVARIANTS Conserved Steps States OwnedOnce Partners Ramps Histories Export
CHECK_DEADLOCK FALSE
