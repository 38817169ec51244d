SPECIFICATION Spec
INVARIANTS Unambiguous NoWordShared
CHECK_DEADLOCK FALSE
