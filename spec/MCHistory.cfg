CONSTANT Threads <- MCThreads
CONSTANT Sites <- MCSites
CONSTANT Allowed <- MCAllowed
CONSTANT Forms <- MCForms
CONSTANT MaxNest <- MCNest
CONSTANT MaxLen <- MCLen
SPECIFICATION Spec
INVARIANT Isolated
INVARIANT Accounted
INVARIANT NeverStuck
INVARIANT Emit
CHECK_DEADLOCK FALSE
