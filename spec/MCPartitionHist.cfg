SPECIFICATION Spec
CONSTANTS Depth = 3
 Keys = 4
 Emit = TRUE
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
