SPECIFICATION Spec
INVARIANTS Quiet Spoken Alone Linked After
PROPERTIES OnlyOutput Nothing NothingLost Ends
CHECK_DEADLOCK FALSE
