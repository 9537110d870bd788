SPECIFICATION Spec
CONSTANTS
  Vals = {1, 2}
  MaxLen = 3
  Caps = {0, 1, 2}
  CanCancel = TRUE
  CanClose = TRUE
  Drain = TRUE
  CommaOk = TRUE
  AckOnCancel = TRUE
  Reuse = TRUE
  Emit = FALSE
INVARIANTS FoldsAll NothingLeft
PROPERTY Delivered
