SPECIFICATION Spec
CONSTANTS
  MaxH = 3
  MaxNew = 2
  NNames = 2
  NBounds = 2
  Depth = 3
  Small = TRUE
  Vals = {2}
  Faces = FALSE
  Mutant = "and"
CONSTRAINT Bound
VIEW View
INVARIANTS Semantics ImpEmpty
CHECK_DEADLOCK FALSE
