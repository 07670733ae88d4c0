SPECIFICATION Spec
CONSTANTS
  MaxH = 2
  Names = {1, 2}
  Depth = 4
  Guarded = TRUE
  Vectors <- SmallVectors
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvIsolated InvBits InvForeign
PROPERTIES Conforms
CHECK_DEADLOCK FALSE
