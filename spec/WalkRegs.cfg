SPECIFICATION Spec
CONSTANTS K = 2
          Emit = FALSE
VIEW View
PROPERTIES OnlyTarget Reads
CHECK_DEADLOCK FALSE
