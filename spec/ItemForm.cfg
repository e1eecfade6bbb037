SPECIFICATION Spec
INVARIANTS Emit Invariants
CHECK_DEADLOCK FALSE
