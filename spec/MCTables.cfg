SPECIFICATION Spec
CONSTANTS
  IW = 1
  D = 2
INVARIANTS InStep EqualityAgrees ShowsAgree RunsAgree
CHECK_DEADLOCK FALSE
