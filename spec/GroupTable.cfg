SPECIFICATION Spec
VIEW view
INVARIANTS Lookup Represents Threshold Sentinel Bound
PROPERTIES Reserved Lazy
ACTION_CONSTRAINT Emit
CONSTRAINTS InitEmit Limit
CHECK_DEADLOCK FALSE
