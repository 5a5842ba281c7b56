CONSTANT WB = 4
CONSTANT HB = 2
CONSTANT BB = 2
CONSTANT DB = 3
CONSTANT DW = 2
CONSTANT MaxW = 9
CONSTANT MaxT = 5
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
