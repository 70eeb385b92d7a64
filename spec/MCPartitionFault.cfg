SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 Depth = 3
 Designs = {"code", "map-first", "forest-first"}
INVARIANT Sound
PROPERTY LeavesAPart
CONSTRAINT Follow
POSTCONDITION MistakesShow
CHECK_DEADLOCK FALSE
