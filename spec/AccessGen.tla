----------------------------- MODULE AccessGen -----------------------------
(* Every format x small shape x call x index at or beyond the limits, and every
   operation x operand, mask shape up to the limit. *)
EXTENDS Access, TLC, Json, IOUtils
CONSTANTS MaxDim
VARIABLES v
AllKinds == Kinds \cup {"mx"}
(* larger shapes: indices around both limits only *)
BigShapes == {<<17, 9>>, <<2, 33>>, <<40, 1>>, <<70, 1>>}
Ixs(n) == IF n <= 4 THEN -2 .. n + 1 ELSE {-2, -1, 0, n - 1, n, n + 1}
BigIx == {1000000007, -1000000007}      \* stand for the extreme integers
Dims == 1 .. MaxDim
IndexCases ==
  UNION {UNION {{[kind |-> "ix", k |-> k, r |-> r, c |-> c, op |-> op, i |-> i, j |-> j] :
                 op \in OpsOf(k), i \in Ixs(r) \cup BigIx, j \in Ixs(c) \cup BigIx} :
           <<r, c>> \in (Dims \X (IF k \in VecKinds THEN {1} ELSE Dims)) \cup {sh \in BigShapes : k \in VecKinds => sh[2] = 1}} : k \in AllKinds}
FamOps == {<<"Add", "add">>, <<"Subtract", "sub">>, <<"MxM", "mul">>, <<"EwAddM", "union">>, <<"EwMulM", "inter">>, <<"Apply", "apply">>,
           <<"Negative", "neg">>, <<"Transpose", "trans">>, <<".Add", "add">>, <<".Subtract", "sub">>, <<".Multiply", "mul">>, <<"Strassen", "mul">>,
           <<"MxV", "mul">>, <<"VxM", "mul">>, <<"EwAddV", "union">>, <<"EwMulV", "inter">>}
IsUn(f) == f \in {"apply", "neg", "trans"}
Vec(op) == op \in {"MxV", "VxM", "EwAddV", "EwMulV"}
AllVec(op) == op \in {"EwAddV", "EwMulV"}
MaskShapes(op) == {<<>>} \cup (Dims \X Dims)
FitCases ==
  UNION {UNION {UNION {{[kind |-> "fit", op |-> fo[1], f |-> fo[2], s |-> s, m |-> m, mask |-> mk,
                        out |-> OutShape(fo[2], s, m)] :
                 mk \in IF fo[1] \in {".Add", ".Subtract", ".Multiply", "Strassen"} THEN {<<>>} ELSE MaskShapes(fo[1])} :
            m \in IF IsUn(fo[2]) THEN {<<>>} ELSE Dims \X (IF Vec(fo[1]) THEN {1} ELSE Dims)} :
       s \in Dims \X (IF AllVec(fo[1]) THEN {1} ELSE Dims)} : fo \in FamOps}
(* the same with larger operands that nearly fit *)
Near == {<<17, 9>>, <<9, 17>>, <<17, 8>>, <<16, 9>>, <<9, 9>>, <<17, 17>>}
NearVec == {<<17, 1>>, <<16, 1>>, <<9, 1>>}
BigFitCases ==
  UNION {UNION {UNION {{[kind |-> "fit", op |-> fo[1], f |-> fo[2], s |-> s, m |-> m, mask |-> mk,
                        out |-> OutShape(fo[2], s, m)] :
                 mk \in IF fo[1] \in {".Add", ".Subtract", ".Multiply", "Strassen"} THEN {<<>>} ELSE {<<>>} \cup Near \cup NearVec} :
            m \in IF IsUn(fo[2]) THEN {<<>>} ELSE IF Vec(fo[1]) THEN NearVec ELSE Near} :
       s \in IF AllVec(fo[1]) THEN NearVec ELSE {<<17, 9>>, <<9, 9>>}} : fo \in FamOps}
(* a search needs a square graph and one of its vertices *)
BfsCases == {[kind |-> "bfs", op |-> "BFS", s |-> s, i |-> i] : s \in (Dims \X Dims) \cup {<<9, 9>>, <<9, 8>>}, i \in Ixs(9) \cup Ixs(3) \cup BigIx}
RedCases == {[kind |-> "red", op |-> o, s |-> s, mask |-> mk] : o \in {"ReduceScalar", "ReduceVector"}, s \in Dims \X Dims, mk \in {<<>>} \cup (Dims \X Dims)}
Init == v \in IndexCases \/ v \in FitCases \/ v \in RedCases \/ v \in BigFitCases \/ v \in BfsCases
Next == PrintT("GEN " \o ToJson(v)) /\ UNCHANGED v
=============================================================================
