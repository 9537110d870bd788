---------------------------- MODULE TraceCancel ----------------------------
(* C11: calls under a context.  fired: the context was cancelled before the call
   returned; mode "pre": before it was made.  OpSteps checks the same relation on
   the design, for every point of cancellation. *)
EXTENDS Ops, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p

Frame(e) == /\ e.alias \notin {"s", "all"} => e.s2 = e.s
            /\ e.alias \notin {"m", "all"} => e.m2 = e.m
            /\ e.mask2 = e.mask
Final(e, i) == Allowed(e.f, e.ar, e.sc, e.uf, e.alpha, e.s, e.m, e.old.c, i, e.old.d[i])
OldOrFinal(e) ==
  /\ e.new.r = e.old.r /\ e.new.c = e.old.c /\ e.new.k = e.old.k
  /\ \A i \in DOMAIN e.old.d :
       \/ e.new.d[i] = e.old.d[i]
       \/ ~Selected(e.mask, i) /\ e.new.d[i] \in Final(e, i)
(* an object made by the call starts as zero, or as a copy of the operand for scaling *)
Fresh(e) == e.op \in {"Scalar", "ToCSR", "ToCSC"}
FreshPartial(e) ==
  /\ e.res.r = OutRows(e.f, e.s, e.m) /\ e.res.c = OutCols(e.f, e.s, e.m)
  /\ \A i \in DOMAIN e.res.d :
       e.res.d[i] \in Allowed(e.f, e.ar, e.sc, e.uf, e.alpha, e.s, e.m, e.res.c, i, ZeroA(e.ar)) \cup {ZeroA(e.ar)}
                      \cup (IF e.f = "scal" THEN {MulA(e.ar, One(e.ar, e.sc), e.s.d[i])} ELSE {})
OK(e) ==
  /\ e.out = "ok" /\ e.left = 0 /\ Frame(e)
  /\ e.after <= e.lim
  /\ IF e.ret
     THEN Fresh(e) => IF e.fired THEN FreshPartial(e)
                      ELSE FreshOK(e.f, e.ar, e.sc, e.uf, e.alpha, e.s, e.m, e.res)
     ELSE CASE e.mode = "pre" -> e.new = e.old
            [] ~e.fired -> IntoOK(e.f, e.ar, e.sc, e.uf, e.alpha, e.s, e.m, e.mask, e.old, e.new)
            [] OTHER -> OldOrFinal(e)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
