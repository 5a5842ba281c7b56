SPECIFICATION Spec
CONSTANTS K = 2
          WV = 3
          MaxN = 3
          Widths = {10, 11, 20}
INVARIANTS ReadBack Refines
PROPERTIES Stable Abstract
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
