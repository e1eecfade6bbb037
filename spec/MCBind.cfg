SPECIFICATION Spec
CONSTANT Source <- Program
INVARIANTS Emit Invariants
CHECK_DEADLOCK FALSE
