SPECIFICATION GenSpec
CONSTANTS
  Vals = {1, 2}
  MaxLen = 3
  Caps = {0, 1, 3}
  CanCancel = FALSE
  CanClose = TRUE
  Drain = TRUE
  CommaOk = TRUE
  AckOnCancel = TRUE
  Reuse = TRUE
  Emit = TRUE
INVARIANTS FoldsAll NothingLeft
CONSTRAINT NotTwo
