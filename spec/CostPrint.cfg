SPECIFICATION Spec
INVARIANT Known
INVARIANT EmitS
CHECK_DEADLOCK FALSE
