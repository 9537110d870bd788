-------------------------------- MODULE Sort --------------------------------
(* C18, design model: lines are compared pairwise and exchanged element by
   element, on a copy of the input.  The two lines compared are copies taken before
   the exchange (Copies), and every element is compared (Whole), not only stored ones. *)
EXTENDS SortOrder, TLC, Json
CONSTANTS Shapes, Cells, Copies, Whole, Strict, Emit
VARIABLES a,        \* the input
          m,        \* the copy being sorted
          j, i,     \* the pair of lines compared next
          vj, vi,   \* what was read of them
          k, half,  \* the exchange: next element, first or second line
          pc
vars == <<a, m, j, i, vj, vi, k, half, pc>>
Objs == UNION {[k : {"dm"}, r : {sh \div 10}, c : {sh % 10}, d : [1 .. (sh \div 10) * (sh % 10) -> Cells]] : sh \in Shapes}
Key(x) == IF Whole THEN Encode(x) ELSE Encode(SelectSeq(x, LAMBDA v : v # 0))
Init == /\ a \in Objs /\ m = a /\ j = 0 /\ i = 1 /\ vj = <<>> /\ vi = <<>> /\ k = 1 /\ half = 1
        /\ pc = IF a.r < 2 THEN "done" ELSE "compare"
        /\ Emit => PrintT("GEN " \o ToJson([r |-> a.r, c |-> a.c, a |-> a.d]))
Advance == IF i + 1 < a.r THEN i' = i + 1 /\ j' = j /\ pc' = "compare"
           ELSE IF j + 2 < a.r THEN j' = j + 1 /\ i' = j + 2 /\ pc' = "compare"
           ELSE pc' = "done" /\ UNCHANGED <<i, j>>
Compare == /\ pc = "compare"
           /\ vj' = Row(m, j) /\ vi' = Row(m, i) /\ k' = 1 /\ half' = 1
           /\ LET x == Key(Row(m, j)) y == Key(Row(m, i))
              IN IF LexLess(y, x) \/ (~Strict /\ x = y) THEN pc' = "swap" /\ UNCHANGED <<i, j>> ELSE Advance
           /\ UNCHANGED <<a, m>>
Put(r, c, v) == m' = [m EXCEPT !.d[Idx(m, r, c - 1)] = v]
Swap == /\ pc = "swap"
        /\ IF k > a.c
           THEN /\ UNCHANGED m
                /\ IF half = 1 THEN half' = 2 /\ k' = 1 /\ UNCHANGED <<i, j, pc>> ELSE Advance /\ UNCHANGED <<half, k>>
           ELSE /\ IF half = 1 THEN Put(j, k, vi[k]) ELSE Put(i, k, (IF Copies THEN vj ELSE Row(m, j))[k])
                /\ k' = k + 1 /\ UNCHANGED <<i, j, pc, half>>
        /\ UNCHANGED <<a, vj, vi>>
Next == ~Emit /\ (Compare \/ Swap \/ (pc = "done" /\ UNCHANGED vars))

Exact == pc = "done" => SortedFrom("rows", a, m)
(* no line is lost between exchanges *)
Kept == pc = "compare" => Permutes(Lines(a, "rows"), Lines(m, "rows"))
(* everything before line j is in place *)
Prefix == pc = "compare" => \A x \in 1 .. j : \A y \in x .. a.r - 1 : ~LexLess(Row(m, y), Row(m, x - 1))

(* the order is total, and is the order of the encodings *)
Boundary == {0, 1, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
Pairs == {<<x, y>> : x, y \in Boundary}
ASSUME \A x, y \in Pairs : /\ LexLess(x, y) = LexLess(Encode(x), Encode(y))
                           /\ (x = y) = (Encode(x) = Encode(y))
                           /\ (LexLess(x, y) \/ LexLess(y, x)) = (x # y)
                           /\ ~(LexLess(x, y) /\ LexLess(y, x))
                           /\ CompareDef(x, y) = 0 - CompareDef(y, x)
Small == [1 .. 3 -> 0 .. 1] \cup [1 .. 2 -> {0, 1, 128}]
ASSUME \A x, y, z \in Small : LexLess(x, y) /\ LexLess(y, z) => LexLess(x, z)
=============================================================================
