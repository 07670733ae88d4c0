SPECIFICATION Spec
CONSTANTS
  Ty = "cls"
  Depth = 3
  Ops = {"fit", "eval", "fitr", "iadd", "iadds", "rules", "sort", "pred", "cfg", "th", "del"}
  Mutant = "none"
  Pre = FALSE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
