SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxCalls = 4
  Ops = {"At", "Set", "Update", "Clear", "Enum"}
  Locked = {"At", "Set", "Update", "Clear", "Enum", "Values", "MapStep"}
  WriteOps = {"Set", "Update", "Clear", "MapStep"}
  Deferred = TRUE
  Nested = FALSE
  Snapshot = TRUE
  Panics = TRUE
  Emit = FALSE
INVARIANTS Exclusive Atomicity ReadsAtomic Released
