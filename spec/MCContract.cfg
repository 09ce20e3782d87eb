SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS InBounds Exactly1 FarOut Undone Reads Total Indexes Places
CHECK_DEADLOCK FALSE
