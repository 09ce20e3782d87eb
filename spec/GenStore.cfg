SPECIFICATION Spec
CONSTANT World <- TheWorld
INVARIANT Done
CHECK_DEADLOCK FALSE
