--------------------------- MODULE TraceContexts ---------------------------
(* Recorded histories of contexts: after every step each of them reports what
   the specification says. *)
EXTENDS Contexts, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES p, l, tree, err
Ev == Trace[p].ev[l]
Init == p \in 1 .. Len(Trace) /\ l = 1 /\ tree = <<[kind |-> "bg", up |-> 0, mode |-> 0, key |-> 0, val |-> 0, dl |-> 0]>> /\ err = <<0>>
Step == /\ l <= Len(Trace[p].ev)
        /\ IF Ev.op = "make" THEN tree' = Append(tree, Ev.node) /\ err' = Append(err, NewErr(tree, err, Ev.node))
           ELSE UNCHANGED tree /\ err' = Cancelled(tree, err, Ev.at)
        /\ Len(Ev.reports) = Len(tree')
        /\ (\A i \in DOMAIN tree' : ReportOK(tree', err', i, Ev.reports[i])) = TRUE
        /\ l' = l + 1 /\ p' = p
Done == l > Len(Trace[p].ev) /\ UNCHANGED <<p, l, tree, err>>
Next == Step \/ Done
=============================================================================
