SPECIFICATION Spec
CONSTANTS N = 6
          Values = {0, 1}
INVARIANT SplitExact
CHECK_DEADLOCK FALSE
