------------------------------ MODULE Strassen ------------------------------
(* C15: one level of Strassen's recursion on a square matrix of size N, with blocks
   of size N/2: seven products are computed concurrently and handed back over a
   channel in any order, then combined.  Larger crossover points and other shapes
   use the ordinary product.  Arithmetic is modulo M (two's complement wraps the
   same way). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS R, K, C, M, Vals, Crossover,
          Tagged,     \* a product is stored under its own number, not in order of arrival
          EvenOnly    \* only square matrices of even size are divided
VARIABLES a, b, pending, got, res, pc
vars == <<a, b, pending, got, res, pc>>

MN(x) == x % M
Mul(x, y, n, k, c) == [i \in 1 .. n |-> [j \in 1 .. c |-> MN(FoldLeft(LAMBDA s, l : s + x[i][l] * y[l][j], 0, [l \in 1 .. k |-> l]))]]
H == K \div 2
Block(x, bi, bj) == [i \in 1 .. H |-> [j \in 1 .. H |-> x[bi * H + i][bj * H + j]]]
AddB(x, y) == [i \in 1 .. H |-> [j \in 1 .. H |-> MN(x[i][j] + y[i][j])]]
SubB(x, y) == [i \in 1 .. H |-> [j \in 1 .. H |-> MN(x[i][j] - y[i][j])]]

Divides == K > Crossover /\ (EvenOnly => K % 2 = 0 /\ R = K /\ C = K)
Init == /\ a \in [1 .. R -> [1 .. K -> Vals]] /\ b \in [1 .. K -> [1 .. C -> Vals]]
        /\ pending = {} /\ got = <<>> /\ res = <<>> /\ pc = "start"
Start == /\ pc = "start"
         /\ IF Divides THEN pending' = 1 .. 7 /\ pc' = "wait" /\ got' = [i \in 1 .. 7 |-> <<>>] /\ UNCHANGED res
            ELSE res' = Mul(a, b, R, K, C) /\ pc' = "done" /\ UNCHANGED <<pending, got>>
         /\ UNCHANGED <<a, b>>
A(i, j) == Block(a, i - 1, j - 1)
B(i, j) == Block(b, i - 1, j - 1)
Prod(x, y) == Mul(x, y, H, H, H)
SubProduct(m) ==
  CASE m = 1 -> Prod(AddB(A(1,1), A(2,2)), AddB(B(1,1), B(2,2)))
    [] m = 2 -> Prod(AddB(A(2,1), A(2,2)), B(1,1))
    [] m = 3 -> Prod(A(1,1), SubB(B(1,2), B(2,2)))
    [] m = 4 -> Prod(A(2,2), SubB(B(2,1), B(1,1)))
    [] m = 5 -> Prod(AddB(A(1,1), A(1,2)), B(2,2))
    [] m = 6 -> Prod(SubB(A(2,1), A(1,1)), AddB(B(1,1), B(1,2)))
    [] m = 7 -> Prod(SubB(A(1,2), A(2,2)), AddB(B(2,1), B(2,2)))
Arrive == /\ pc = "wait" /\ \E m \in pending :
               /\ pending' = pending \ {m}
               /\ got' = [got EXCEPT ![IF Tagged THEN m ELSE 8 - Cardinality(pending)] = SubProduct(m)]
          /\ UNCHANGED <<a, b, res, pc>>
Combine == /\ pc = "wait" /\ pending = {} /\ pc' = "done"
           /\ LET c11 == AddB(SubB(AddB(got[1], got[4]), got[5]), got[7])
                  c12 == AddB(got[3], got[5])
                  c21 == AddB(got[2], got[4])
                  c22 == AddB(AddB(SubB(got[1], got[2]), got[3]), got[6])
              IN res' = [i \in 1 .. 2 * H |-> [j \in 1 .. 2 * H |->
                   CASE i <= H /\ j <= H -> c11[i][j]
                     [] i <= H /\ j > H -> c12[i][j - H]
                     [] i > H /\ j <= H -> c21[i - H][j]
                     [] OTHER -> c22[i - H][j - H]]]
           /\ UNCHANGED <<a, b, pending, got>>
Next == Start \/ Arrive \/ Combine \/ (pc = "done" /\ UNCHANGED vars)
Exact == pc = "done" => res = Mul(a, b, R, K, C)
(* every sub-product in its place *)
Placed == pc = "wait" /\ Tagged => \A m \in 1 .. 7 : m \notin pending => got[m] = SubProduct(m)
=============================================================================
