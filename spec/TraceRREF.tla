------------------------------ MODULE TraceRREF ------------------------------
(* Recorded row reductions.  The rows of the input are those of base, integers, multiplied with
   powers of two (from 2^-44 to 2^38), which leaves the row space and so the reduced form alone. *)
EXTENDS RowSpace, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
OK(e) == /\ e.out = "ok"
         /\ e.a2 = e.a
         /\ IsRREFOf(e.res, e.scale, e.base)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
