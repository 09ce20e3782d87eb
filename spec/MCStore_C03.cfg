SPECIFICATION Spec
CONSTANTS
  World <- MCWorld
  MaxVal = 1
  Bases <- FewBases
CONSTRAINT Small
VIEW View
INVARIANT Window
PROPERTIES Rebinding Frame
CHECK_DEADLOCK FALSE
