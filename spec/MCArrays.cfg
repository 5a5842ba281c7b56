SPECIFICATION Spec
CONSTANTS
  IW = 1
  D = 3
  Emit = FALSE
VIEW View
INVARIANTS ReadsLastWrite NoDefaultInMap ConversionsExact EqualityExact
CHECK_DEADLOCK FALSE
