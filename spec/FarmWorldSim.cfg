INIT WInit
NEXT WNext
CONSTANT Refused = TRUE

INVARIANTS Conserved OwnedOnce Steps States Books Cleared Export
CHECK_DEADLOCK FALSE
