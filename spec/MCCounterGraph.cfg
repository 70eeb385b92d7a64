SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 Max = 2
 Emit = TRUE
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
