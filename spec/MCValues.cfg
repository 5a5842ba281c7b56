SPECIFICATION Spec
CONSTANTS
  X = 2
  H = 3
  Emit = FALSE
INVARIANT Kept
INVARIANT Equivalence
PROPERTY Others
VIEW View
CHECK_DEADLOCK FALSE
