-------------------------------- MODULE RREF --------------------------------
(* C16: Gauss-Jordan elimination step by step over the rationals, against the
   definition in RowSpace, and the uniqueness of what the definition describes. *)
EXTENDS RowSpace, TLC, Json
CONSTANTS R, C, Vals, Candidates,
          Above,      \* rows above the leading one are eliminated as well
          Normal,     \* the leading element is divided out
          Restart,    \* looking for a leading element starts again at the current row when a column has none
          Emit
VARIABLES a, m, row, lead, i, pc
vars == <<a, m, row, lead, i, pc>>

Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN x ELSE GCD(y, x % y)
Norm(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == GCD(Abs(n), Abs(d)) s == IF d < 0 THEN 0 - 1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
RSub(x, y) == Norm(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
RMul(x, y) == Norm(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == Norm(x[1] * y[2], x[2] * y[1])
Zero == <<0, 1>>

Mats == [r : {R}, c : {C}, d : [1 .. R * C -> Vals]]
Init == /\ a \in Mats
        /\ m = [r |-> R, c |-> C, d |-> [k \in 1 .. R * C |-> <<a.d[k], 1>>]]
        /\ row = 1 /\ lead = 1 /\ i = 1 /\ pc = "find"
        /\ Emit => PrintT("GEN " \o ToJson([r |-> R, c |-> C, a |-> a.d]))
Pos(x, y) == (x - 1) * C + y
Find == /\ pc = "find"
        /\ IF row > R \/ lead > C THEN pc' = "done" /\ UNCHANGED <<lead, i>>
           ELSE IF m.d[Pos(i, lead)] # Zero THEN pc' = "swap" /\ UNCHANGED <<lead, i>>
           ELSE IF i < R THEN i' = i + 1 /\ UNCHANGED <<lead, pc>>
           ELSE lead' = lead + 1 /\ i' = (IF Restart THEN row ELSE R) /\ UNCHANGED pc
        /\ UNCHANGED <<a, m, row>>
Swap == /\ pc = "swap" /\ pc' = "divide"
        /\ m' = [m EXCEPT !.d = [k \in DOMAIN m.d |->
             LET x == (k - 1) \div C + 1 y == ((k - 1) % C) + 1
             IN IF x = i THEN m.d[Pos(row, y)] ELSE IF x = row THEN m.d[Pos(i, y)] ELSE m.d[k]]]
        /\ UNCHANGED <<a, row, lead, i>>
Divide == /\ pc = "divide" /\ pc' = "clear" /\ i' = 1
          /\ m' = [m EXCEPT !.d = [k \in DOMAIN m.d |->
               IF Normal /\ (k - 1) \div C + 1 = row THEN RDiv(m.d[k], m.d[Pos(row, lead)]) ELSE m.d[k]]]
          /\ UNCHANGED <<a, row, lead>>
Clear == /\ pc = "clear"
         /\ IF i > R THEN pc' = "find" /\ row' = row + 1 /\ lead' = lead + 1 /\ i' = row + 1 /\ UNCHANGED m
            ELSE /\ i' = i + 1 /\ UNCHANGED <<row, lead, pc>>
                 /\ m' = IF i = row \/ (~Above /\ i < row) THEN m
                         ELSE LET f == RDiv(m.d[Pos(i, lead)], m.d[Pos(row, lead)])
                              IN [m EXCEPT !.d = [k \in DOMAIN m.d |->
                                   IF (k - 1) \div C + 1 = i THEN RSub(m.d[k], RMul(f, m.d[Pos(row, ((k - 1) % C) + 1)])) ELSE m.d[k]]]
         /\ UNCHANGED a
Next == ~Emit /\ (Find \/ Swap \/ Divide \/ Clear \/ (pc = "done" /\ UNCHANGED vars))

(* the result in integers, times the product of the denominators *)
Factor == FoldLeft(LAMBDA x, q : (x * q[2]) \div GCD(x, q[2]), 1, m.d)
Scaled == [r |-> R, c |-> C, d |-> [k \in DOMAIN m.d |-> m.d[k][1] * (Factor \div m.d[k][2])]]
Defined == pc = "done" => IsRREFOf(Scaled, Factor, a)
Unique == pc = "done" => \A x \in [r : {R}, c : {C}, d : [1 .. R * C -> Candidates]] :
             IsRREFOf(x, 1, a) => m.d = [k \in 1 .. R * C |-> <<x.d[k], 1>>]
=============================================================================
