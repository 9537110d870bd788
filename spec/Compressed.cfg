SPECIFICATION Spec
CONSTANTS Major = 2 Minor = 3 Vals = {0, 1}
VIEW View
INVARIANTS WellFormed NoStoredZero LastWriteWins CountsNonZero VisitedOnce
PROPERTY MapEnds
CHECK_DEADLOCK FALSE
