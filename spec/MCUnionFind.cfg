SPECIFICATION Spec
CONSTANTS N = 5
 Emit = FALSE
VIEW View
INVARIANTS Refines Shallow OneNodeEach
PROPERTY QueryNeutral
CHECK_DEADLOCK FALSE
