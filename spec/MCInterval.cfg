SPECIFICATION Spec
CONSTANTS N = 4
 Triples = FALSE
 Emit = FALSE
INVARIANTS PointsFaithful SetMeaning Rules BoundMeaning ClampMeaning Laws
CHECK_DEADLOCK FALSE
