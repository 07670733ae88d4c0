SPECIFICATION Spec
CONSTANTS
  Ty = "cls"
  Depth = 4
  Ops = {"fit", "pred"}
  Mutant = "vote"
  Pre = TRUE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
