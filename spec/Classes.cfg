SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 5, 8, 13, 20}
 Steps = {1, 2, 3, 4, 6, 7}
 Emit = FALSE
INVARIANT ClosedForm
CHECK_DEADLOCK FALSE
