SPECIFICATION Spec
INVARIANT TenThousandth
CHECK_DEADLOCK FALSE
