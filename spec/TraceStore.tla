----------------------------- MODULE TraceStore -----------------------------
(* Validates recorded histories of one object against Store.
   PROP = C01: the heap is tracked by the specification alone.
   PROP = C02: contents are taken from At, every other view has to agree.
   PROP = C03: contents are taken from At, iterations and maps have to agree. *)
EXTENDS Store, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
VARIABLES p, l

Ev    == Trace[p].ev[l]
Init  == p \in 1 .. Len(Trace) /\ l = 1 /\ heap = <<>>

Observed(e) == Mat(e.obs.k, e.obs.r, e.obs.c, e.obs.d)

Call(e) ==
  \/ e.op = "new" /\ e.from = <<>> /\ New(Trace[p].k, e.r, e.c)
  \/ e.op = "new" /\ e.from # <<>> /\ NewFrom(Trace[p].k, e.r, e.c, e.from)
  \/ e.op \in {"set", "setptr"} /\ Set(1, e.r, e.c, e.v)
  \/ e.op = "setvec" /\ SetVec(1, e.r, e.v)
  \/ e.op \in {"upd", "updptr"} /\ ~e.th /\ Update(1, e.r, e.c, e.f, e.calls) /\ e.seen = e.calls
  \/ e.op \in {"upd", "updptr"} /\ e.th /\ e.threw /\ UpdateThrown(1, e.r, e.c, e.calls) /\ e.seen = e.calls
  \/ e.op = "bulk" /\ Bulk(1, e.w)
  \/ e.op = "clear" /\ Clear(1)
  \/ e.op = "resize" /\ ReSize(1, e.n) /\ e.ret = e.n
  \/ e.op = "read" /\ Read(1)

C01Step(e) ==
  /\ e.out = "ok" /\ e.look = "ok"
  /\ Call(e)
  /\ heap' = <<Observed(e)>>
  /\ e.atvec = e.obs.d
  /\ e.spill = <<>>      \* nothing outside the window of a large object

C02Step(e) ==
  /\ heap' = <<Observed(e)>>
  /\ (e.out = "ok" => e.look = "ok" /\ ViewsOK(heap'[1], e.views)) = TRUE

(* once it has been mapped an object still has to behave like one *)
C03Step(e) ==
  /\ (e.op # "map" /\ \E i \in 1 .. l - 1 : Trace[p].ev[i].op = "map") => e.out = "ok" /\ Call(e)
  /\ heap' = <<Observed(e)>>
  /\ e.spill = <<>>
  /\ e.op = "map" =>
       /\ e.out = "ok" /\ ~e.over
       /\ e.seen = [i \in DOMAIN e.mcalls |-> e.mcalls[i][3]]  \* what the object shows while its element is mapped
       /\ IF e.threw THEN MapThrown(1, e.f, e.n, e.mcalls) ELSE Map(1, e.f, IF e.th THEN 0 ELSE e.n, e.mcalls)
  /\ (e.out = "ok" => /\ e.look = "ok" /\ ~e.enum.over
                      /\ VisitsOK(heap'[1], 0, e.enum.list)
                      /\ e.enum.two => VisitsOK(heap'[1], 0, e.enum.list2)) = TRUE

Step == /\ l <= Len(Trace[p].ev)
        /\ CASE Prop = "C01" -> C01Step(Ev)
             [] Prop = "C02" -> C02Step(Ev)
             [] Prop = "C03" -> C03Step(Ev)
        /\ l' = l + 1 /\ p' = p
Done == l > Len(Trace[p].ev) /\ UNCHANGED <<heap, p, l>>
Next == Step \/ Done
Alias == [p |-> p, l |-> l]
=============================================================================
