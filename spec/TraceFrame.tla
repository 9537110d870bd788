----------------------------- MODULE TraceFrame -----------------------------
(* C04 on single operations: operands and mask are as before, unless they are the output. *)
EXTENDS Values, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
FrameOK(e) ==
  /\ e.alias \notin {"s", "all", "sK"} => e.s2 = e.s
  /\ e.alias \notin {"m", "all", "mK"} => e.m2 = e.m
  /\ \/ e.mask2 = e.mask
     \/ e.alias \in {"s", "all", "m", "sK", "mK"} /\ e.mask.k = "alias"
Init == p \in 1 .. Len(Trace)
Next == (FrameOK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
