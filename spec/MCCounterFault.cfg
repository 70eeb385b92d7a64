SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 Max = 2
 Emit = FALSE
INVARIANTS InterruptedIsSafe LeftIsBetween
CHECK_DEADLOCK FALSE
