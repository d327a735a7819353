SPECIFICATION Spec
CONSTANTS N = 3
 Emit = TRUE
 Own = {"0", "2"}
 Cap = {"0", "1", "3"}
INVARIANTS Conserved Due NotAbove NoWaste

CHECK_DEADLOCK FALSE
