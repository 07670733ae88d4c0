SPECIFICATION Spec
CONSTANTS
  Ty = "reg"
  Depth = 4
  Ops = {"fit", "iadd"}
  Mutant = "iadd"
  Pre = TRUE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
