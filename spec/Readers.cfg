SPECIFICATION Spec
CONSTANT Readers = {1, 2}
CONSTANT Keys = {1, 2, 3, 4}
CONSTANT Cells = 3
CONSTANT Style = "pure"
INVARIANT RaceFree
INVARIANT Answers
INVARIANT NoWrites
PROPERTY Finish
