SPECIFICATION Spec
CONSTANTS Dom = "exact"
 Lo <- MinusFour
 Hi = 4
 Args <- ArgsExact
 Emit = TRUE
INVARIANTS Formed Sound Exact Inverse EmitM
CHECK_DEADLOCK FALSE
