SPECIFICATION Spec
CONSTANTS CapMax = 3
 ExtMax = 1
 Emit = FALSE
VIEW FullView
INVARIANTS IndexInv SlotInv UniqueInv AbsInv
PROPERTIES RingRefinesDeque Conservation EndsTouchFew LinearizeIsContiguous
CHECK_DEADLOCK FALSE
