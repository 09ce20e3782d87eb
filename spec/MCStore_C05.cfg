SPECIFICATION Spec
CONSTANTS
  World <- MCWorld
  MaxVal = 1
  Bases <- FewBases
CONSTRAINT Small
VIEW View
PROPERTIES SwapExchanges Frame
CHECK_DEADLOCK FALSE
