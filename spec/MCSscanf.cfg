CONSTANT Source <- Program
SPECIFICATION Spec
INVARIANT Invariants
INVARIANT Emit
CHECK_DEADLOCK FALSE
