SPECIFICATION Spec
CONSTANTS CapMax = 5
 ExtMax = 2
 Emit = TRUE
VIEW LayoutView
INVARIANTS IndexInv SlotInv UniqueInv AbsInv
PROPERTIES RingRefinesDeque Conservation LinearizeIsContiguous
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
