SPECIFICATION Spec
CONSTANTS
  Ty = "reg"
  Splits = 5
  Feats = 2
  Top = 7
  Mutant = "none"
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
