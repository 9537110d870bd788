------------------------------ MODULE RWLock ------------------------------
(* Design of the lock wrapper: every call takes the readers-writer lock, works on
   the wrapped contents in two steps (so that an overlap could show), and gives
   the lock back, also when it panics.  A writer that waits keeps later readers
   out.  Enumerating works on a copy taken under the lock.

   The wrapped contents are one cell; abs is the contents an atomic object would
   have, changed at one moment of each call. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxCalls, Ops,
          Locked,      \* operations that take the lock at all (the others are wrong)
          WriteOps,    \* operations that take it for writing
          Deferred,    \* a panicking call gives the lock back
          Nested,      \* reading calls take the reader lock twice
          Snapshot,    \* enumerating works on a copy
          Panics, Emit
Modifies == {"Set", "Update", "Clear", "MapStep"}
VARIABLES cell, abs, pc, op, reg, seen, expect, readers, writer, waiting, calls, hist
vars == <<cell, abs, pc, op, reg, seen, expect, readers, writer, waiting, calls, hist>>
AllOps == {"At", "Set", "Update", "Clear", "Values", "Enum", "MapStep"}
Init == /\ cell = 0 /\ abs = 0 /\ readers = [t \in Threads |-> 0] /\ writer = 0 /\ waiting = {}
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "none"] /\ reg = [t \in Threads |-> 0]
        /\ seen = [t \in Threads |-> 0] /\ expect = [t \in Threads |-> {}] /\ calls = 0 /\ hist = <<>>
Writes(o) == o \in WriteOps
ReadersIn == \E t \in Threads : readers[t] > 0

Call(t) == /\ pc[t] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
           /\ \E o \in Ops : /\ op' = [op EXCEPT ![t] = o]
                             /\ pc' = [pc EXCEPT ![t] = IF o \notin Locked THEN "begin" ELSE IF Writes(o) THEN "wlock" ELSE "rlock"]
                             /\ hist' = Append(hist, <<t, o>>)
                             (* a reading call may see any contents there are while it runs *)
                             /\ expect' = [expect EXCEPT ![t] = {abs}]
           /\ UNCHANGED <<cell, abs, reg, seen, readers, writer, waiting>>
RLock(t) == /\ pc[t] = "rlock" /\ writer = 0 /\ waiting = {}
            /\ readers' = [readers EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = IF Nested /\ readers[t] = 0 THEN "rlock" ELSE "begin"]
            /\ UNCHANGED <<cell, abs, op, reg, seen, expect, writer, waiting, calls, hist>>
WWait(t) == /\ pc[t] = "wlock" /\ t \notin waiting /\ waiting' = waiting \cup {t}
            /\ UNCHANGED <<cell, abs, pc, op, reg, seen, expect, readers, writer, calls, hist>>
WLock(t) == /\ pc[t] = "wlock" /\ t \in waiting /\ writer = 0 /\ ~ReadersIn
            /\ writer' = t /\ waiting' = waiting \ {t} /\ pc' = [pc EXCEPT ![t] = "begin"]
            /\ UNCHANGED <<cell, abs, op, reg, seen, expect, readers, calls, hist>>
(* the work: read the cell, then write it or deliver what was read *)
Begin(t) == /\ pc[t] = "begin" /\ reg' = [reg EXCEPT ![t] = cell] /\ pc' = [pc EXCEPT ![t] = "end"]
            /\ UNCHANGED <<cell, abs, op, seen, expect, readers, writer, waiting, calls, hist>>
New(o, v) == CASE o = "Set" -> 1 [] o = "Clear" -> 0 [] OTHER -> (v + 1) % 3
Atomic(t, v) == /\ abs' = v
                /\ expect' = [u \in Threads |-> IF u # t /\ pc[u] # "idle" THEN expect[u] \cup {v} ELSE expect[u]]
End(t) == /\ pc[t] = "end"
          /\ IF op[t] \in Modifies
             THEN /\ cell' = New(op[t], reg[t]) /\ Atomic(t, New(op[t], abs)) /\ UNCHANGED seen
             ELSE /\ seen' = [seen EXCEPT ![t] = IF op[t] = "Enum" /\ ~Snapshot THEN cell ELSE reg[t]] /\ UNCHANGED <<cell, abs, expect>>
          /\ pc' = [pc EXCEPT ![t] = "unlock"]
          /\ UNCHANGED <<op, reg, readers, writer, waiting, calls, hist>>
Panic(t) == /\ Panics /\ pc[t] = "end"
            /\ pc' = [pc EXCEPT ![t] = IF Deferred THEN "unlock" ELSE "idle"]
            /\ seen' = [seen EXCEPT ![t] = CHOOSE v \in expect[t] : TRUE]
            /\ UNCHANGED <<cell, abs, op, reg, expect, readers, writer, waiting, calls, hist>>
Unlock(t) == /\ pc[t] = "unlock" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ readers' = [readers EXCEPT ![t] = 0] /\ writer' = IF writer = t THEN 0 ELSE writer
             /\ UNCHANGED <<cell, abs, op, reg, seen, expect, waiting, calls, hist>>
NoHist == <<cell, abs, pc, op, reg, seen, expect, readers, writer, waiting, calls>>
Idle == calls = MaxCalls /\ \A t \in Threads : pc[t] = "idle"
Out == Emit /\ Idle /\ PrintT("GEN " \o ToJson([calls |-> hist])) /\ UNCHANGED vars
Next == \/ \E t \in Threads : Call(t) \/ RLock(t) \/ WWait(t) \/ WLock(t) \/ Begin(t) \/ End(t) \/ Panic(t) \/ Unlock(t)
        \/ Out \/ (Idle /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Inside(t) == pc[t] = "end"
Exclusive == \A t, u \in Threads : t # u /\ Inside(t) /\ Inside(u) => op[t] \notin Modifies /\ op[u] \notin Modifies
Atomicity == cell = abs
ReadsAtomic == \A t \in Threads : pc[t] = "unlock" /\ op[t] \notin Modifies => seen[t] \in expect[t]
Released == (\A t \in Threads : pc[t] = "idle") => writer = 0 /\ ~ReadersIn
=============================================================================
