CONSTANT Threads <- MCThreads
CONSTANT Sites <- MCSites
CONSTANT Allowed <- MCAllowed
CONSTANT Forms <- MCForms
CONSTANT MaxNest = 1
CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANT Once
PROPERTY Refines
PROPERTY Served
CHECK_DEADLOCK FALSE
