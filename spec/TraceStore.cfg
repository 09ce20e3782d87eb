SPECIFICATION Spec
CONSTANT World <- TheWorld
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
