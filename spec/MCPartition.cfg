SPECIFICATION Spec
CONSTANTS Depth = 3
 Keys = 4
 Emit = FALSE
INVARIANTS Connectivity Canonical
CHECK_DEADLOCK FALSE
