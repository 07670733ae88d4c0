SPECIFICATION Spec
CONSTANTS
  MaxH = 2
  Names = {1, 2}
  Depth = 4
  Guarded = FALSE
  Vectors <- SmallVectors
CONSTRAINT Bound
VIEW View
INVARIANTS InvIsolated InvBits InvForeign
CHECK_DEADLOCK FALSE
