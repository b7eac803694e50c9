INIT WInit
NEXT WNext
CONSTANT Refused = FALSE
VIEW View
INVARIANTS Conserved OwnedOnce Steps States Books Cleared
CHECK_DEADLOCK FALSE
