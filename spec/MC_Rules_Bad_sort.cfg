SPECIFICATION Spec
CONSTANTS
  Ty = "reg"
  Depth = 5
  Ops = {"fit", "iadd", "sort"}
  Mutant = "sort"
  Pre = TRUE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
