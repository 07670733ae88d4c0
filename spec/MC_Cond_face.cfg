SPECIFICATION Spec
CONSTANTS
  MaxH = 3
  MaxNew = 2
  NNames = 2
  NBounds = 2
  Depth = 2
  Small = TRUE
  Vals = {2}
  Faces = TRUE
  Mutant = "none"
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Semantics ImpEmpty
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
