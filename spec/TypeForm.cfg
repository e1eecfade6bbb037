SPECIFICATION Spec
VIEW View
INVARIANTS Emit Sound
CHECK_DEADLOCK FALSE
