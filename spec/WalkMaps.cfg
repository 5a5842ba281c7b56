SPECIFICATION Spec
CONSTANTS N = 3
          Emit = FALSE
VIEW View
PROPERTY OneKey
CHECK_DEADLOCK FALSE
