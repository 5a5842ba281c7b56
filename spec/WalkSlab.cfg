SPECIFICATION Spec
CONSTANTS N = 3
          Emit = FALSE
VIEW View
PROPERTIES OnlyAddressed SourcesKept
CHECK_DEADLOCK FALSE
