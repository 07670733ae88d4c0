SPECIFICATION Spec
CONSTANTS
  Ty = "cls"
  Splits = 3
  Feats = 3
  Top = 5
  Mutant = "none"
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
