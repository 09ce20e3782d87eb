SPECIFICATION Spec
CONSTANTS
  World <- MCWorld
  MaxVal = 1
  Bases <- FewBases
CONSTRAINT Small
VIEW View
PROPERTIES Frame Simultaneous
CHECK_DEADLOCK FALSE
