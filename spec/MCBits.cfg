SPECIFICATION Spec
CONSTANT MaxW = 5
INVARIANT Agree
CHECK_DEADLOCK FALSE
