SPECIFICATION FairSpec
INVARIANTS Unique One Kept Emit
PROPERTY Settles
CHECK_DEADLOCK FALSE
