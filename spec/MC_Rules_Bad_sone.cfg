SPECIFICATION Spec
CONSTANTS
  Ty = "reg"
  Depth = 4
  Ops = {"fit", "eval", "fitr", "iadd", "iadds", "rules", "sort", "pred", "cfg", "th", "del", "evalr", "calcr", "calc", "predr", "sone", "look", "ask", "and", "slice", "add"}
  Mutant = "sone"
  Pre = TRUE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
