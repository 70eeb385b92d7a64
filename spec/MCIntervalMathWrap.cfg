SPECIFICATION Spec
CONSTANTS Dom = "wrap"
 Lo <- MinusFour
 Hi = 4
 Args <- ArgsWrap
 Emit = TRUE
INVARIANTS Formed Sound Exact Inverse EmitM
CHECK_DEADLOCK FALSE
