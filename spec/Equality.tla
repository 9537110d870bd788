------------------------------ MODULE Equality ------------------------------
(* Equality (C05): the definition, a design model of the algorithm (element
   counts, then the elements of one side looked up in the other, visited in any
   order), and the relation recorded comparisons have to satisfy.  A missing
   object is a record of format "nil". *)
EXTENDS Values, TLC, Json

Missing(o) == o.k = "nil"
EqualDef(a, b) == \/ Missing(a) /\ Missing(b)
                  \/ ~Missing(a) /\ ~Missing(b) /\ SameContents(a, b)

(* ---- design model ---- *)
CONSTANTS ShapeSet, Vals, ModelKinds, EmitPairs
VARIABLES a, b, todo, res, pc
vars == <<a, b, todo, res, pc>>
Sparse(o) == o.k \in SparseKinds
Elements(o) == IF Sparse(o) THEN NonZero(o.d) ELSE DOMAIN o.d
CountOf(o)  == Cardinality(Elements(o))
(* shapes are written r * 10 + c *)
ObjSet == UNION {[k : ModelKinds, r : {sh \div 10}, c : {sh % 10}, d : [1 .. (sh \div 10) * (sh % 10) -> Vals]] : sh \in ShapeSet}
NilObj == [k |-> "nil", r |-> 0, c |-> 0, d |-> <<>>]
Init == /\ a \in ObjSet \cup {NilObj} /\ b \in ObjSet \cup {NilObj}
        /\ todo = {} /\ res = "?" /\ pc = "start"
        /\ EmitPairs => a.k \in {"csr", "nil"} /\ b.k \in {"csr", "nil"} /\ PrintT("GEN " \o ToJson([a |-> a, b |-> b]))
Start == /\ pc = "start"
         /\ IF Missing(a) \/ Missing(b)
            THEN res' = (IF Missing(a) /\ Missing(b) THEN "yes" ELSE "no") /\ pc' = "done" /\ todo' = todo
            ELSE IF ~SameShape(a, b) \/ (Sparse(a) = Sparse(b) /\ CountOf(a) # CountOf(b))
            THEN res' = "no" /\ pc' = "done" /\ todo' = todo
            ELSE /\ todo' = Elements(IF Sparse(b) THEN a ELSE b) /\ pc' = "loop" /\ res' = res
         /\ UNCHANGED <<a, b>>
Loop == /\ pc = "loop" /\ \E i \in todo :
             IF a.d[i] # b.d[i] THEN res' = "no" /\ pc' = "done" /\ todo' = todo
             ELSE todo' = todo \ {i} /\ res' = res /\ pc' = pc
        /\ UNCHANGED <<a, b>>
End == pc = "loop" /\ todo = {} /\ res' = "yes" /\ pc' = "done" /\ UNCHANGED <<a, b, todo>>
Next == ~EmitPairs /\ (Start \/ Loop \/ End \/ (pc = "done" /\ UNCHANGED vars))
Exact == pc = "done" => (res = "yes") = EqualDef(a, b)
=============================================================================
