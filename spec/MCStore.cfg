SPECIFICATION Spec
CONSTANTS
  World <- MCWorld
  MaxVal = 1
  Bases <- AllBases
CONSTRAINT Small
VIEW View
INVARIANT Window
PROPERTIES Frame Simultaneous CompoundIsOpThenAssign Rebinding Independent SwapExchanges
CHECK_DEADLOCK FALSE
