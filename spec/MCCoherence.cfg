SPECIFICATION Spec
CONSTANT V = {v1, v2, v3, v4}
INVARIANT Strict
CHECK_DEADLOCK FALSE
