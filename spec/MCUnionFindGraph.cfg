SPECIFICATION Spec
CONSTANTS N = 4
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
