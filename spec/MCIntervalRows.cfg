SPECIFICATION Spec
CONSTANTS N = 4
 Triples = FALSE
 Emit = TRUE
INVARIANTS EmitI
CHECK_DEADLOCK FALSE
