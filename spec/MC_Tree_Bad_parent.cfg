SPECIFICATION Spec
CONSTANTS
  Ty = "cls"
  Splits = 2
  Feats = 2
  Top = 5
  Mutant = "parent"
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
