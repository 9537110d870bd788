----------------------------- MODULE TraceLock -----------------------------
(* C12: recorded runs of the lock wrapper.
   ev:    accesses to the wrapped contents, in order; no modification overlaps
          any other thread's access (Exclusive of RWLock)
   calls: one after the other, next to the same calls on a plain matrix
   hist:  concurrent calls with when they began and ended; they must be explained
          by executing them one at a time in an order consistent with that *)
EXTENDS Values, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p

(* inside: the accesses under way, as a bag of <<thread, modifies>> kept as a sequence *)
RemoveOne(q, x) == LET i == CHOOSE k \in DOMAIN q : q[k] = x IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Enter(st, e) ==
  IF ~st.ok THEN st
  ELSE IF e.in
  THEN [ok |-> \A i \in DOMAIN st.q : st.q[i][1] # e.th => ~st.q[i][2] /\ ~e.mod, q |-> Append(st.q, <<e.th, e.mod>>)]
  ELSE [ok |-> TRUE, q |-> RemoveOne(st.q, <<e.th, e.mod>>)]
NoOverlap(ev) == FoldLeft(Enter, [ok |-> TRUE, q |-> <<>>], ev).ok

(* one call is one moment: between the accesses it makes nobody modifies, and
   nobody looks when it modifies itself.  Iterations are many calls. *)
Atom(e, th) ==
  LET mine == {i \in DOMAIN e.ev : e.ev[i].th = th}
      mod == \E i \in mine : e.ev[i].mod
      first == CHOOSE i \in mine : \A j \in mine : i <= j
      last == CHOOSE i \in mine : \A j \in mine : i >= j
  IN mine # {} => \A i \in first .. last : e.ev[i].th # th => ~mod /\ ~e.ev[i].mod
Whole(e) == /\ e.a \notin {"Enum", "MapStep"} => Atom(e, 1)
            /\ e.b \notin {"Enum", "MapStep"} => Atom(e, 2)

SeqOK(calls) == \A i \in DOMAIN calls : calls[i].got = calls[i].want /\ calls[i].obs = calls[i].obs2

Inc(x) == (x + 1) % 4
At(o, c) == o.r * c.c + o.c + 1
(* a call made at this moment on contents d: would it have given this result, and what does it leave *)
Fits(c, d, o) ==
  CASE o.op = "At" -> o.res = <<d[At(o, c)]>>
    [] o.op = "Update" -> o.res = <<d[At(o, c)]>>
    [] o.op = "Values" -> o.res = <<IF c.k \in SparseKinds THEN Cardinality(NonZero(d)) ELSE Len(d)>>
    [] o.op = "Enum" -> o.res = d
    [] o.op = "Row" -> o.res = [i \in 1 .. c.c |-> d[o.r * c.c + i]]
    [] OTHER -> TRUE
After(c, d, o) ==
  CASE o.op = "Set" -> [d EXCEPT ![At(o, c)] = o.v]
    [] o.op = "Update" -> [d EXCEPT ![At(o, c)] = Inc(@)]
    [] o.op = "Clear" -> Zeros(Len(d))
    [] OTHER -> d
RECURSIVE Lin(_, _, _, _)
Lin(c, h, rest, d) ==
  IF rest = {} THEN d = c.end.d
  ELSE \E i \in rest : /\ \A j \in rest : ~(h[j].ret < h[i].inv)
                       /\ Fits(c.start, d, h[i])
                       /\ Lin(c, h, rest \ {i}, After(c.start, d, h[i]))
Linearizable(e) == Lin(e, e.hist, DOMAIN e.hist, e.start.d)

OK(e) == /\ e.out = "ok" /\ ~e.locked
         /\ NoOverlap(e.ev)
         /\ e.op = "pair" => Whole(e)
         /\ e.op = "seq" => SeqOK(e.calls)
         /\ e.op = "hist" => Linearizable(e)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
