SPECIFICATION Spec
CONSTANTS
  World <- MCWorld
  MaxVal = 1
  Bases <- FewBases
CONSTRAINT Small
VIEW View
PROPERTIES Independent
CHECK_DEADLOCK FALSE
