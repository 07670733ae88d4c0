SPECIFICATION Spec
CONSTANTS
  Ty = "reg"
  Depth = 4
  Ops = {"fit", "th", "eval"}
  Mutant = "drop"
  Pre = FALSE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
