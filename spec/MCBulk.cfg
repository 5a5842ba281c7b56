SPECIFICATION Spec
CONSTANTS MaxI = 2
          MaxN = 2
INVARIANTS Bulk Inj
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
