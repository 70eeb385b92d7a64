SPECIFICATION Spec
CONSTANTS Range <- Values
 Operands <- Factors
 Designs = {"code", "bounds"}
INVARIANTS Right Safe
CONSTRAINT Follow
POSTCONDITION MistakesShow
CHECK_DEADLOCK FALSE
