SPECIFICATION Spec
INVARIANTS Truth NonZero NoTouch ReadFirst Needed Judge
CHECK_DEADLOCK FALSE
