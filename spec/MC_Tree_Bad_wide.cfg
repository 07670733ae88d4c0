SPECIFICATION Spec
CONSTANTS
  Ty = "reg"
  Splits = 3
  Feats = 1
  Top = 7
  Mutant = "wide"
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
