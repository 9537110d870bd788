---------------------------- MODULE TraceAccess ----------------------------
EXTENDS Access, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
OK(e) == CASE e.kind = "ix" -> AccessOK(e)
           [] e.kind = "fit" -> FitOK(e)
           [] e.kind = "bfs" -> BfsOK(e)
           [] e.kind = "red" -> ReduceFitOK(e)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
