CONSTANT WB = 2
CONSTANT MaxW = 5
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
