------------------------------- MODULE OpsGen -------------------------------
(* Emits small operands for every operation, exhaustively over the cell values
   of the family: the specification's state space of single calls. *)
EXTENDS Ops, TLC, Json, IOUtils

(* The jobs: which operations, their family, the shape (s is r x c, m is c x k for
   products), the values of the cells of operands, old output and mask, and which
   arguments are the same object *)
Jobs == ndJsonDeserialize(IOEnv.JOBS)
SetOf(q) == {q[i] : i \in DOMAIN q}
VARIABLES j, op, alias, s, m, old, mask, uf

Fresh(o) == o \in {".Add", ".Subtract", ".Multiply", ".Negative", "Scalar", ".Scalar", ".Transpose", "ToCSR", "ToCSC", "TT", "Strassen"}
Fam == Jobs[j].fam
R == Jobs[j].r
C == Jobs[j].c
K == Jobs[j].k
Binary == Fam \in {"add", "sub", "mul", "union", "inter"}
MN == IF Fam = "mul" THEN C * K ELSE R * C
OR == IF Fam = "trans" THEN C ELSE R
OC == CASE Fam = "mul" -> K [] Fam = "trans" -> R [] OTHER -> C
ON == OR * OC
MaskSets == {<<>>} \cup ([1 .. ON -> SetOf(Jobs[j].masks)] \ {[i \in 1 .. ON |-> 0]})

Init == /\ j \in DOMAIN Jobs
        /\ op \in SetOf(Jobs[j].ops)
        /\ alias \in SetOf(Jobs[j].aliases)
        /\ s \in [1 .. R * C -> SetOf(Jobs[j].vals)]
        /\ m \in CASE ~Binary -> {<<>>} [] alias \in {"sm", "all", "aS"} -> {s} [] OTHER -> [1 .. MN -> SetOf(Jobs[j].vals)]
        /\ old \in CASE Fresh(op) -> {<<>>}
                      [] alias \in {"s", "all", "sK", "sS", "aS"} -> {s}
                      [] alias \in {"m", "mK", "mM"} -> {m}
                      [] OTHER -> [1 .. ON -> SetOf(Jobs[j].olds)]
        /\ mask \in IF Fresh(op) \/ alias \in {"maskS", "maskM", "sK", "mK", "sS", "mM", "aS"} THEN {<<>>} ELSE MaskSets
        /\ uf \in IF op = "Apply" THEN {"inc", "zero", "drop1"} ELSE {"inc"}
Case == [op |-> op, sr |-> R, sc |-> C, s |-> s,
         mr |-> IF ~Binary THEN 0 ELSE IF Fam = "mul" THEN C ELSE R,
         mc |-> IF ~Binary THEN 0 ELSE IF Fam = "mul" THEN K ELSE C, m |-> m,
         or |-> IF Fresh(op) THEN 0 ELSE OR, oc |-> IF Fresh(op) THEN 0 ELSE OC, old |-> old, mask |-> mask,
         uf |-> uf, alias |-> alias, alpha |-> 2]
(* lemma checked on the way: the relation can always be satisfied *)
Satisfiable == \A i \in 1 .. ON :
  Allowed(Fam, 0, 1, uf, 2, Mat("dn", R, C, s),
          IF ~Binary THEN 0 ELSE IF Fam = "mul" THEN Mat("dn", C, K, m) ELSE Mat("dn", R, C, m), OC, i, 3) # {}
Next == PrintT("GEN " \o ToJson(Case)) /\ Satisfiable /\ UNCHANGED <<j, op, alias, s, m, old, mask, uf>>
=============================================================================
