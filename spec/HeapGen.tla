------------------------------ MODULE HeapGen ------------------------------
(* Design model of C04 and generator of its programs: objects are made from one
   another in chains; then both ends are written.  With Sharing = FALSE every
   derivation takes storage of its own and no write shows anywhere else; with
   Sharing = TRUE (a derivation may hand out the storage of its source) the
   property has to fail. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS How, Kinds0, MaxObjs, Sharing, Emit, MaxLen
VARIABLES objs, mem, hist, last
vars == <<objs, mem, hist, last>>
(* objs: sequence of storage ids; mem: storage id -> version (number of writes seen through it) *)
Init == \E k \in Kinds0 :
        objs = <<1>> /\ mem = <<0>> /\ hist = <<[op |-> "new", how |-> k, o |-> 0]>> /\ last = [w |-> 0, before |-> <<>>]
View(os, mm) == [i \in DOMAIN os |-> mm[os[i]]]
Derive(o, how) ==
  /\ Len(objs) < MaxObjs /\ Len(hist) < MaxLen - 1      \* a history ends with a write
  /\ \/ objs' = Append(objs, Len(mem) + 1) /\ mem' = Append(mem, 0)
     \/ Sharing /\ objs' = Append(objs, objs[o]) /\ mem' = mem
  /\ hist' = Append(hist, [op |-> "derive", how |-> how, o |-> o])
  /\ last' = [w |-> 0, before |-> View(objs, mem)]
Write(o) ==
  /\ Len(objs) > 1 /\ Len(hist) < MaxLen /\ (hist[Len(hist)].op = "write" => hist[Len(hist)].o # o)
  /\ mem' = [mem EXCEPT ![objs[o]] = @ + 1] /\ objs' = objs
  /\ hist' = Append(hist, [op |-> "write", how |-> "", o |-> o])
  /\ last' = [w |-> o, before |-> View(objs, mem)]
Next == \/ \E o \in DOMAIN objs, h \in How : Derive(o, h)
        \/ \E o \in DOMAIN objs : Write(o)
Independent == \A i \in DOMAIN last.before : i # last.w => View(objs, mem)[i] = last.before[i]
EmitDone == Emit /\ Len(hist') = MaxLen => PrintT("GEN " \o ToJson([steps |-> hist']))
=============================================================================
