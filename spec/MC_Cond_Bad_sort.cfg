SPECIFICATION Spec
CONSTANTS
  MaxH = 3
  MaxNew = 2
  NNames = 2
  NBounds = 2
  Depth = 3
  Small = TRUE
  Vals = {2}
  Faces = FALSE
  Mutant = "sort"
CONSTRAINT Bound
VIEW View
INVARIANTS Semantics ImpEmpty
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
