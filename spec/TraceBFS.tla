------------------------------ MODULE TraceBFS ------------------------------
(* Recorded searches.  levels: what the predicate was given, rep: what it said. *)
EXTENDS Graphs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p

OK(e) ==
  LET n == e.g.r
      want == Counts(e.g, e.s + 1)
      k == Len(e.levels)
      yes == k > 0 /\ e.rep[k]
  IN /\ e.out = "ok"
     /\ e.after = e.g
     /\ k <= n
     /\ \A i \in 1 .. k : /\ e.levels[i] = want[i + 1]
                          /\ i < k => ~e.rep[i]
     (* it ends before the n-th level only if nothing is left to find *)
     /\ ~yes => \A i \in k + 1 .. n : want[i + 1] = Zeros(n)
     /\ e.res = IF yes THEN e.levels[k] ELSE Zeros(n)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
