SPECIFICATION Spec
CONSTANTS Base = 3
 Limbs = 3
INVARIANT Agree
CHECK_DEADLOCK FALSE
