INIT Init
NEXT Next
CONSTANTS Depth = 9
 Emit = FALSE
INVARIANTS Invariant Fresh
VIEW View
CHECK_DEADLOCK FALSE
