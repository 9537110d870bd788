SPECIFICATION GenSpec
CONSTANTS Major = 2 Minor = 2 Vals = {0, 1, 2}
VIEW GenView
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
