SPECIFICATION Spec
INVARIANTS Stable FromHost HeadersProper InOrder
CHECK_DEADLOCK FALSE
