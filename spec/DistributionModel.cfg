SPECIFICATION Spec
CONSTANTS N = 3
 Emit = FALSE
 Own = {"0", "2", "3"}
 Cap = {"0", "1", "3"}
INVARIANTS Conserved Due NotAbove NoWaste
PROPERTY Goes
CHECK_DEADLOCK FALSE
