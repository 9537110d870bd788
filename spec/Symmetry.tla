------------------------------ MODULE Symmetry ------------------------------
(* C17: the definition, and a design model: the transpose (or its negative) is
   built element by element and compared with the matrix, whose formats store all
   elements or only the non-zero ones; elements are visited in any order. *)
EXTENDS Values, TLC, Json

SymmetricDef(o) == o.r = o.c /\ \A r, c \in 0 .. o.r - 1 : Cell(o, r, c) = Cell(o, c, r)
SkewDef(ar, o)  == o.r = o.c /\ \A r, c \in 0 .. o.r - 1 : Cell(o, r, c) = NegA(ar, Cell(o, c, r))

Bytes == {-128, -1, 0, 1}
CONSTANTS Shapes, Cells, ModelKinds, Bits,
          Diagonal,     \* elements of the diagonal are compared as well
          Emit
VARIABLES o, skew, t, todo, res, pc
vars == <<o, skew, t, todo, res, pc>>
Objs == UNION {[k : ModelKinds, r : {sh \div 10}, c : {sh % 10}, d : [1 .. (sh \div 10) * (sh % 10) -> Cells]] : sh \in Shapes}
Elements(x) == IF x.k \in SparseKinds THEN NonZero(x.d) ELSE DOMAIN x.d
Init == /\ o \in Objs /\ skew \in (IF Emit THEN {FALSE} ELSE BOOLEAN) /\ todo = {} /\ res = "?" /\ pc = "start"
        /\ t = Obj("dn", 0, 0)
        /\ Emit => PrintT("GEN " \o ToJson([r |-> o.r, c |-> o.c, a |-> o.d]))
Start == /\ pc = "start"
         /\ IF o.r # o.c THEN res' = "no" /\ pc' = "done" /\ UNCHANGED <<t, todo>>
            ELSE /\ t' = Obj(o.k, o.c, o.r) /\ todo' = Elements(o) /\ pc' = "mirror" /\ UNCHANGED res
         /\ UNCHANGED <<o, skew>>
Mirror == /\ pc = "mirror"
          /\ \E i \in todo :
                /\ t' = [t EXCEPT !.d[ColOf(o, i) * t.c + RowOf(o, i) + 1] = IF skew THEN NegA(Bits, o.d[i]) ELSE o.d[i]]
                /\ todo' = todo \ {i}
          /\ UNCHANGED <<o, skew, res, pc>>
Compare == /\ pc = "mirror" /\ todo = {}
           /\ todo' = {i \in Elements(t) : Diagonal \/ RowOf(t, i) # ColOf(t, i)} /\ pc' = "compare" /\ UNCHANGED res
           /\ UNCHANGED <<o, skew, t>>
Step == /\ pc = "compare"
        /\ IF todo = {} THEN res' = "yes" /\ pc' = "done" /\ UNCHANGED todo
           ELSE \E i \in todo : IF t.d[i] # o.d[i] THEN res' = "no" /\ pc' = "done" /\ UNCHANGED todo
                                ELSE todo' = todo \ {i} /\ UNCHANGED <<res, pc>>
        /\ UNCHANGED <<o, skew, t>>
Next == ~Emit /\ (Start \/ Mirror \/ Compare \/ Step \/ (pc = "done" /\ UNCHANGED vars))
Exact == pc = "done" => (res = "yes") = IF skew THEN SkewDef(Bits, o) ELSE SymmetricDef(o)
=============================================================================
