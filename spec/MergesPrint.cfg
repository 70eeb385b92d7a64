SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 7, 12, 17, 30}
 Emit = TRUE
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
