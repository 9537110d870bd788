----------------------------- MODULE TraceSort -----------------------------
(* Recorded sortings and comparisons of rune matrices, against the definition. *)
EXTENDS SortOrder, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
SortOK(e) == /\ e.out = "ok"
             /\ SameContents(e.after, e.a)
             /\ SortedFrom(e.axis, e.a, e.res)
CmpOK(e) == /\ e.out = "ok"
            /\ SameContents(e.a2, e.a) /\ SameContents(e.b2, e.b)
            /\ e.sa = e.a.d /\ e.sb = e.b.d
            /\ e.ab = CompareDef(e.a.d, e.b.d) /\ e.ba = CompareDef(e.b.d, e.a.d)
            /\ e.less = (e.ab < 0) /\ e.greater = (e.ab > 0)
OK(e) == IF e.op = "Compare" THEN CmpOK(e) ELSE SortOK(e)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
