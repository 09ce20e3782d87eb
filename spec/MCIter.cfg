SPECIFICATION Spec
VIEW View
INVARIANTS InBounds Laws
PROPERTIES OneWrite
CHECK_DEADLOCK FALSE
