------------------------------ MODULE RowSpace ------------------------------
(* The reduced row echelon form by its definition.  A matrix is [r, c, d] with
   integer entries; the result R is given times a factor one. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SignedVals == {-1, 0, 1}
SignedVals2 == {-2, 0, 1}
At(m, i, j) == m.d[(i - 1) * m.c + j]
RowZero(m, i) == \A j \in 1 .. m.c : At(m, i, j) = 0
Lead(m, i) == CHOOSE j \in 1 .. m.c : At(m, i, j) # 0 /\ \A k \in 1 .. j - 1 : At(m, i, k) = 0
NonZeroRows(m) == {i \in 1 .. m.r : ~RowZero(m, i)}

IsReduced(m, one) ==
  /\ \A i \in 1 .. m.r - 1 : RowZero(m, i) => RowZero(m, i + 1)
  /\ \A i \in NonZeroRows(m) :
        LET j == Lead(m, i) IN
        /\ At(m, i, j) = one
        /\ \A k \in 1 .. m.r : k # i => At(m, k, j) = 0
        /\ \A k \in NonZeroRows(m) : k > i => Lead(m, k) > j

(* every row of a is the combination of the rows of a reduced matrix that its entries at the leading columns name *)
Spanned(a, m, one) ==
  LET top == Cardinality(NonZeroRows(m))
      lead == [i \in 1 .. top |-> Lead(m, i)]
  IN \A i \in 1 .. a.r : \A j \in 1 .. a.c :
       At(a, i, j) * one = FoldLeft(LAMBDA x, k : x + At(a, i, lead[k]) * At(m, k, j), 0, [k \in 1 .. top |-> k])

(* and the rows of a span as much: the leading columns of a have full rank, by elimination modulo a prime
   (rank modulo a prime never exceeds the rank) *)
Prime == 46337
Mod(x) == x % Prime
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE LET h == Power(x, n \div 2) h2 == Mod(h * h) IN IF n % 2 = 1 THEN Mod(h2 * x) ELSE h2
InvMod(x) == Power(x, Prime - 2)
RankMod(rows, cols) ==   \* rows: a set of functions 1 .. cols -> 0 .. Prime - 1, kept as a sequence
  LET Elim(st, j) ==
        LET cand == {i \in DOMAIN st.rows : st.rows[i][j] # 0}
        IN IF cand = {} THEN st
           ELSE LET i == CHOOSE x \in cand : TRUE
                    inv == InvMod(st.rows[i][j])
                    rest == SelectSeq([k \in DOMAIN st.rows |-> IF k = i THEN <<>> ELSE st.rows[k]], LAMBDA q : q # <<>>)
                    Clear(q) == LET f == Mod(q[j] * inv) IN [x \in DOMAIN q |-> Mod(q[x] - Mod(f * st.rows[i][x]))]
                IN [rank |-> st.rank + 1, rows |-> [k \in DOMAIN rest |-> Clear(rest[k])]]
  IN FoldLeft(Elim, [rank |-> 0, rows |-> rows], [j \in 1 .. cols |-> j]).rank
SameRank(a, m) ==
  LET top == Cardinality(NonZeroRows(m))
      lead == [i \in 1 .. top |-> Lead(m, i)]
  IN RankMod([i \in 1 .. a.r |-> [k \in 1 .. top |-> Mod(At(a, i, lead[k]))]], top) = top

IsRREFOf(m, one, a) == m.r = a.r /\ m.c = a.c /\ IsReduced(m, one) /\ Spanned(a, m, one) /\ SameRank(a, m)
=============================================================================
