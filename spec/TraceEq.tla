------------------------------ MODULE TraceEq ------------------------------
(* Recorded comparisons: every way of asking gives the defined answer. *)
EXTENDS Values, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
Missing(o) == o.k = "nil"
EqualDef(a, b) == \/ Missing(a) /\ Missing(b)
                  \/ ~Missing(a) /\ ~Missing(b) /\ SameContents(a, b)
EqOK(e) == /\ e.out = "ok"
           /\ \A i \in DOMAIN e.eq : e.eq[i] <=> EqualDef(e.a, e.b)
           /\ \A i \in DOMAIN e.ne : e.ne[i] <=> ~EqualDef(e.a, e.b)
Init == p \in 1 .. Len(Trace)
Next == (EqOK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
