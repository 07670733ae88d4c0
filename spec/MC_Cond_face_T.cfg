SPECIFICATION Spec
CONSTANTS
  MaxH = 3
  MaxNew = 1
  NNames = 2
  NBounds = 2
  Depth = 3
  Small = TRUE
  Vals = {1,2}
  Faces = TRUE
  Mutant = "none"
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Semantics ImpEmpty
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
