SPECIFICATION Spec
CONSTANTS N = 8
          Emit = FALSE
VIEW View
INVARIANT Injective
CHECK_DEADLOCK FALSE
