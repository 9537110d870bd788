SPECIFICATION Spec
CONSTANTS Fams = {"add"} R = 1 C = 2 Vals = {0, 1, 2} Olds = {0, 9} Masks = {0, 1} Aliases = {"none", "s", "m", "sm", "all"} Copying = TRUE MaskObjs = {"own"} AR = 0
INVARIANTS Complete OldOrFinal OperandsKept Steady
PROPERTY Ends
CHECK_DEADLOCK TRUE
