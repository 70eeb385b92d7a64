SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Vals <- WithNaN
 Emit = TRUE
INVARIANTS Laws Transitive
CONSTRAINT EmitC
CHECK_DEADLOCK FALSE
