SPECIFICATION FairSpec
CONSTANTS Budget = 3
INVARIANTS Truth NonZero NoTouch ReadFirst Needed Emit
PROPERTIES Ends CarriesOn
CHECK_DEADLOCK FALSE
