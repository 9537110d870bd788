----------------------------- MODULE ReadersGen -----------------------------
(* Every pair of reading operations, with the object in every role: the scenarios
   two unsynchronised readers of the same objects can be in. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MatOps, VecOps, LogOps, MatK, VecK, LogK
VARIABLES done
OpsOf(k) == IF k \in VecK THEN VecOps ELSE IF k \in MatK THEN MatOps ELSE LogOps
Case(k, a, b) == [k |-> k, a |-> a, b |-> b]
Init == done \in {Case(k, a, b) : k \in MatK \cup VecK \cup LogK, a \in MatOps \cup VecOps \cup LogOps, b \in MatOps \cup VecOps \cup LogOps}
Next == (IF done.a \in OpsOf(done.k) /\ done.b \in OpsOf(done.k) THEN PrintT("GEN " \o ToJson(done)) ELSE TRUE) /\ UNCHANGED done
=============================================================================
