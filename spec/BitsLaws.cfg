CONSTANT W = 10
SPECIFICATION Spec
INVARIANTS Repr Laws
CHECK_DEADLOCK FALSE
