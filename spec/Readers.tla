------------------------------ MODULE Readers ------------------------------
(* C13: goroutines that read the same compressed row without a lock.

   The row is an array of entries <<key, value>> in memory.  A reader looks for a
   key with one memory access per step: it reads entry after entry until it finds
   the key.  Style says what an implementation of "reading" may do to the storage:
     pure    nothing
     cache   it remembers the value it found in a field of the object
     front   it moves the entry it found to the front (two writes)
     insert  it inserts an explicit zero for a key it did not find
     once    as cache, but the field is only accessed under a lock
   Only pure and once keep the two promises: no data race (two accesses of the
   same location, one of them a write, not both under the lock, that are not
   ordered), and every reader gets the answer it would get alone. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Keys, Cells, Style

VARIABLES mem, cache, key, pc, pos, tmp, got, lock
vars == <<mem, cache, key, pc, pos, tmp, got, lock>>

None == <<0, 0>>
Start == [i \in 1 .. Cells + 1 |-> IF i <= Cells THEN <<i, 10 * i>> ELSE None]
Alone(k) == IF k \in 1 .. Cells THEN 10 * k ELSE 0

Init == /\ mem = Start
        /\ cache = None
        /\ key \in [Readers -> Keys]
        /\ pc = [r \in Readers |-> IF Style \in {"cache", "once"} THEN "look" ELSE "scan"]
        /\ pos = [r \in Readers |-> 1]
        /\ tmp = [r \in Readers |-> None]
        /\ got = [r \in Readers |-> -1]
        /\ lock = 0

(* the memory access a reader is about to make: <<location, write?, locked?>>; location 0 is the cache *)
Access(r) ==
  CASE pc[r] = "look"  -> {<<0, FALSE, Style = "once">>}
    [] pc[r] = "scan"  -> {<<pos[r], FALSE, FALSE>>}
    [] pc[r] = "store" -> {<<0, TRUE, Style = "once">>}
    [] pc[r] = "front1" -> {<<1, TRUE, FALSE>>}
    [] pc[r] = "front2" -> {<<pos[r], TRUE, FALSE>>}
    [] pc[r] = "insert" -> {<<Cells + 1, TRUE, FALSE>>}
    [] OTHER -> {}

Locked(r, stay) ==    \* the cache field is read and written inside one short critical section each
  IF Style = "once" THEN lock = 0 /\ UNCHANGED lock ELSE UNCHANGED lock

Done(r, v) == /\ got' = [got EXCEPT ![r] = v]
              /\ pc' = [pc EXCEPT ![r] = "done"]

Look(r) == /\ pc[r] = "look" /\ Locked(r, FALSE)
           /\ IF cache # None /\ cache[1] = key[r]
              THEN Done(r, cache[2]) /\ UNCHANGED <<mem, cache, key, pos, tmp>>
              ELSE pc' = [pc EXCEPT ![r] = "scan"] /\ UNCHANGED <<mem, cache, key, pos, tmp, got>>
Scan(r) == /\ pc[r] = "scan" /\ UNCHANGED <<mem, cache, key, lock>>
           /\ LET e == mem[pos[r]] IN
              IF e[1] = key[r]
              THEN /\ tmp' = [tmp EXCEPT ![r] = e] /\ UNCHANGED pos
                   /\ CASE Style \in {"cache", "once"} -> pc' = [pc EXCEPT ![r] = "store"] /\ UNCHANGED got
                        [] Style = "front" /\ pos[r] > 1 -> pc' = [pc EXCEPT ![r] = "front1"] /\ UNCHANGED got
                        [] OTHER -> Done(r, e[2])
              ELSE IF pos[r] > Cells
              THEN IF Style = "insert" THEN pc' = [pc EXCEPT ![r] = "insert"] /\ UNCHANGED <<pos, tmp, got>>
                   ELSE Done(r, 0) /\ UNCHANGED <<pos, tmp>>
              ELSE pos' = [pos EXCEPT ![r] = @ + 1] /\ UNCHANGED <<tmp, pc, got>>
Store(r) == /\ pc[r] = "store" /\ Locked(r, FALSE)
            /\ cache' = tmp[r] /\ Done(r, tmp[r][2]) /\ UNCHANGED <<mem, key, pos, tmp>>
(* move to front: the first entry goes where the found one was *)
Front1(r) == /\ pc[r] = "front1"
             /\ mem' = [mem EXCEPT ![1] = tmp[r]]
             /\ tmp' = [tmp EXCEPT ![r] = mem[1]]
             /\ pc' = [pc EXCEPT ![r] = "front2"] /\ UNCHANGED <<cache, key, pos, got, lock>>
Front2(r) == /\ pc[r] = "front2"
             /\ mem' = [mem EXCEPT ![pos[r]] = tmp[r]]
             /\ Done(r, Alone(key[r])) /\ UNCHANGED <<cache, key, pos, tmp, lock>>
Insert(r) == /\ pc[r] = "insert"
             /\ mem' = [mem EXCEPT ![Cells + 1] = <<key[r], 0>>]
             /\ Done(r, 0) /\ UNCHANGED <<cache, key, pos, tmp, lock>>

Next == \/ \E r \in Readers : Look(r) \/ Scan(r) \/ Store(r) \/ Front1(r) \/ Front2(r) \/ Insert(r)
        \/ (\A r \in Readers : pc[r] = "done") /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ \A r \in Readers : WF_vars(Look(r) \/ Scan(r) \/ Store(r) \/ Front1(r) \/ Front2(r) \/ Insert(r))

RaceFree == \A r, q \in Readers : r # q =>
  \A a \in Access(r), b \in Access(q) : ~(a[1] = b[1] /\ (a[2] \/ b[2]) /\ ~(a[3] /\ b[3]))
Answers == \A r \in Readers : got[r] # -1 => got[r] = Alone(key[r])
NoWrites == Style = "pure" => mem = Start /\ cache = None
Finish == \A r \in Readers : <>(pc[r] = "done")
=============================================================================
