SPECIFICATION Spec
CONSTANT MaxW = 3
INVARIANT TypeOK
PROPERTIES OnlyTarget KeepsWidth
CHECK_DEADLOCK FALSE
