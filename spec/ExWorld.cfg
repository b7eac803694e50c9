INIT WInit
NEXT WNext
CONSTANT Refused = FALSE
VIEW View
INVARIANTS Conserved Steps States OwnedOnce Partners Ramps Histories
CHECK_DEADLOCK FALSE
