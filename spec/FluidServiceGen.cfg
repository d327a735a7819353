INIT Init
NEXT Next
CONSTANTS Depth = 4
 Emit = TRUE
INVARIANTS Invariant Fresh
VIEW View
CHECK_DEADLOCK FALSE
