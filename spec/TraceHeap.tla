----------------------------- MODULE TraceHeap -----------------------------
(* C04: a heap of objects that are made from one another.  A call may change
   only the object it is asked to write (its output); every other object of the
   heap, operands and masks included, keeps its contents.  New objects join the
   heap.  The number of objects and their contents after every call come from
   reading each of them. *)
EXTENDS Values, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES p, l, heap
Ev == Trace[p].ev[l]
Init == p \in 1 .. Len(Trace) /\ l = 1 /\ heap = <<>>

(* w: the object (position) the call writes, 0 if none; a written object keeps its format *)
Frame(e) ==
  /\ Len(e.heap) = Len(heap) + e.made
  /\ \A i \in DOMAIN heap : i # e.w => e.heap[i] = heap[i]
Step == /\ l <= Len(Trace[p].ev)
        /\ Ev.look = "ok"
        /\ Frame(Ev) = TRUE
        /\ heap' = Ev.heap /\ l' = l + 1 /\ p' = p
Done == l > Len(Trace[p].ev) /\ UNCHANGED <<heap, p, l>>
Next == Step \/ Done
Alias == [p |-> p, l |-> l]
=============================================================================
