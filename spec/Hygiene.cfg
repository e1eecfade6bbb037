SPECIFICATION Spec
INVARIANT Transparent
INVARIANT Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
