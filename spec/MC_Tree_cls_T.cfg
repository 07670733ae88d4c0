SPECIFICATION Spec
CONSTANTS
  Ty = "cls"
  Splits = 4
  Feats = 3
  Top = 7
  Mutant = "none"
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
