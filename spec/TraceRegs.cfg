SPECIFICATION Spec
ALIAS Short
