SPECIFICATION Spec
INVARIANTS Table
CHECK_DEADLOCK FALSE
