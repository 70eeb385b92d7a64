SPECIFICATION Spec
CONSTANTS Sizes = {12, 30}
 Emit = FALSE
INVARIANTS RightIsShallow AllMerged
CONSTRAINT Collect
POSTCONDITION Discriminating
CHECK_DEADLOCK FALSE
