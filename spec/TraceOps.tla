------------------------------ MODULE TraceOps ------------------------------
(* Every recorded operation has to satisfy the relation of Ops.  One initial
   state per recorded call; a call that does not satisfy it has no successor. *)
EXTENDS Ops, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p

OpOK(e) ==
  /\ e.out = "ok"
  /\ IF e.f = "mulx" THEN ProductThrough(e.xs, e.s, e.m, e.new)
     ELSE IF e.fresh THEN FreshOK(e.f, e.ar, e.sc, e.uf, e.alpha, e.s, e.m, e.new)
     ELSE IntoOK(e.f, e.ar, e.sc, e.uf, e.alpha, e.s, e.m, e.mask, e.old, e.new)
Init == p \in 1 .. Len(Trace)
Next == (OpOK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
