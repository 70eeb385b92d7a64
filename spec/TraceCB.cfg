SPECIFICATION Spec
INVARIANT WellFormedRegs
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
