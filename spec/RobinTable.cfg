SPECIFICATION Spec
VIEW view
INVARIANTS Lookup Represents InReach Ordered
PROPERTIES Loaded Lazy Reserved
ACTION_CONSTRAINT Emit
CONSTRAINTS InitEmit Limit
CHECK_DEADLOCK FALSE
