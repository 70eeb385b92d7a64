SPECIFICATION Spec
CONSTANTS Dom = "int"
 Lo <- MinusFour
 Hi = 4
 Args <- ArgsInt
 Emit = TRUE
INVARIANTS Formed Sound Exact Inverse EmitM
CHECK_DEADLOCK FALSE
