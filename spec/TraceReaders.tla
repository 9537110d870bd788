---------------------------- MODULE TraceReaders ----------------------------
(* Concurrent readers of the same objects: each got the answer it gets alone,
   and the objects are as before.  (That no access raced is the race detector's
   verdict: the driver dies at the first race.) *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
OK(e) == /\ e.out = "ok"
         /\ \A i \in DOMAIN e.got : e.got[i] = e.alone[i]
         /\ e.before = e.after
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
