-------------------------------- MODULE Ops --------------------------------
(* What every operation has to leave in its output, cell by cell, as a relation
   between the operands, the mask, the old output and the new one.
   A cell of the result lies in Allowed(...); where the relation leaves a choice
   (a cell for which the operation defines no result) both an untouched and a
   zeroed output cell are accepted. *)
EXTENDS Values

One(ar, sc) == IF ar >= 100 THEN <<1, 0, 0, 0, 0>> ELSE sc
(* unary functions the drivers use; sc is the scale of the stored numbers *)
Unary(uf, ar, sc, x) ==
  CASE uf = "inc"   -> AddA(ar, x, One(ar, sc))
    [] uf = "zero"  -> ZeroA(ar)
    [] uf = "one"   -> One(ar, sc)
    [] uf = "neg"   -> NegA(ar, x)
    [] uf = "dbl"   -> AddA(ar, x, x)
    [] uf = "drop1" -> IF x = One(ar, sc) THEN ZeroA(ar) ELSE x
    (* the reciprocal of what has a whole one; it tells the two zeros apart *)
    [] uf = "recip" -> CASE x = 0 -> PInf [] x = NegZ -> NInf [] x \in {PInf, NInf} -> 0 [] OTHER -> x

Applied(uf, ar, sc, x) ==
  IF ar = 1 THEN NoSign(Unary(uf, ar, sc, IF uf = "recip" THEN x ELSE NoSign(x))) ELSE Unary(uf, ar, sc, x)

Dot(ar, s, m, r, c) ==
  FoldLeft(LAMBDA acc, l : AddA(ar, acc, MulA(ar, Cell(s, r, l - 1), Cell(m, l - 1, c))), ZeroA(ar), [l \in 1 .. s.c |-> l])

(* dense formats store every cell, sparse ones the non-zero cells *)
Stored(ar, o, i) == o.k \in DenseKinds \/ o.d[i] # ZeroA(ar)

OutRows(f, s, m) == IF f = "trans" THEN s.c ELSE s.r
OutCols(f, s, m) == CASE f = "mul" -> m.c [] f = "trans" -> s.r [] OTHER -> s.c

(* Large products: the product agrees with the two operands on the given vectors.
   new x = s (m x) has to hold for every x, and random ones tell. *)
Image(o, x) == [i \in 1 .. o.r |-> FoldLeft(LAMBDA acc, l : acc + o.d[(i - 1) * o.c + l] * x[l], 0, [l \in 1 .. o.c |-> l])]
ProductThrough(xs, s, m, new) ==
  /\ new.r = s.r /\ new.c = m.c
  /\ \A i \in DOMAIN xs : Image(new, xs[i]) = Image(s, Image(m, xs[i]))

(* The values cell i (1-based, row major, in an output with oc columns) may hold afterwards *)
Allowed(f, ar, sc, uf, alpha, s, m, oc, i, old) ==
  LET z == ZeroA(ar)
      r == (i - 1) \div oc
      c == (i - 1) % oc
      mirror == c * s.c + r + 1          \* position of the mirrored cell in s
  IN CASE f = "add"   -> IF s.d[i] = z /\ m.d[i] = z THEN {z, old} ELSE {AddA(ar, s.d[i], m.d[i])}
       [] f = "sub"   -> IF s.d[i] = z /\ m.d[i] = z THEN {z, old} ELSE {SubA(ar, s.d[i], m.d[i])}
       [] f = "mul"   -> {Dot(ar, s, m, r, c)}
       [] f = "union" -> IF m.d[i] # z THEN {m.d[i]} ELSE IF s.d[i] # z THEN {s.d[i]} ELSE {z, old}
       [] f = "inter" -> IF s.d[i] = m.d[i] /\ s.d[i] # z
                         THEN {s.d[i]} \cup (IF ar = 1 /\ s.d[i] = NaN THEN {z, old} ELSE {})    \* NaN is not equal to itself
                         ELSE {z, old}
       [] f = "apply" -> IF Stored(ar, s, i) THEN {Applied(uf, ar, sc, s.d[i])} ELSE {z, old}
       [] f = "neg"   -> IF Stored(ar, s, i) THEN {NegA(ar, s.d[i])} ELSE {z, old}
       [] f = "trans" -> IF Stored(ar, s, mirror) THEN {s.d[mirror]} ELSE {z, old}
       \* zero times a special value, in a format that does not store the zero, may stay zero
       [] f = "scal"  -> {MulA(ar, alpha, s.d[i])} \cup (IF ar = 1 /\ ~Stored(ar, s, i) THEN {z} ELSE {})
       [] f = "same"  -> {s.d[i]}

Selected(mask, i) == mask.d # <<>> /\ mask.d[i] # 0

(* into an output that exists *)
IntoOK(f, ar, sc, uf, alpha, s, m, mask, old, new) ==
  /\ new.r = old.r /\ new.c = old.c /\ new.k = old.k
  /\ \A i \in DOMAIN old.d :
       new.d[i] \in IF Selected(mask, i) THEN {old.d[i]}
                    ELSE Allowed(f, ar, sc, uf, alpha, s, m, old.c, i, old.d[i])
(* as a new object *)
FreshOK(f, ar, sc, uf, alpha, s, m, new) ==
  /\ new.r = OutRows(f, s, m) /\ new.c = OutCols(f, s, m)
  /\ \A i \in DOMAIN new.d :
       new.d[i] \in Allowed(f, ar, sc, uf, alpha, s, m, new.c, i, ZeroA(ar))
=============================================================================
