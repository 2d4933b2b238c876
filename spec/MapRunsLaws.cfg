CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS Same Canonical Sizes Parts
CHECK_DEADLOCK FALSE
