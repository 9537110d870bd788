---------------------------- MODULE TraceSymmetry ----------------------------
(* Recorded answers of the symmetry predicates, against the definition. *)
EXTENDS Values, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
SymmetricDef(o) == o.r = o.c /\ \A r, c \in 0 .. o.r - 1 : Cell(o, r, c) = Cell(o, c, r)
SkewDef(ar, o)  == o.r = o.c /\ \A r, c \in 0 .. o.r - 1 : Cell(o, r, c) = NegA(ar, Cell(o, c, r))
OK(e) == /\ e.out = "ok" /\ e.s2 = e.s
         /\ e.sym = SymmetricDef(e.s)
         /\ e.skew = SkewDef(e.ar, e.s)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
