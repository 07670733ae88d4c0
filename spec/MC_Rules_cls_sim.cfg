SPECIFICATION Spec
CONSTANTS
  Ty = "cls"
  Depth = 14
  Ops = {"fit", "eval", "fitr", "iadd", "iadds", "rules", "sort", "pred", "cfg", "th", "del", "evalr", "calcr", "calc", "predr", "one", "sone", "look", "ask", "and", "slice", "add"}
  Mutant = "none"
  Pre = FALSE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
