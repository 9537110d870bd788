---------------------------- MODULE TraceReduce ----------------------------
(* Recorded reductions: the result is the fold over the values sent, in order,
   or over the stored, unmasked elements; it is delivered once and nothing is
   left running. *)
EXTENDS Values, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p

Sixteen(ar) == IF ar >= 100 THEN <<16, 0, 0, 0, 0>> ELSE 16
Op(e, x, y) ==
  CASE e.mono = "add" -> AddA(e.ar, x, y)
    [] e.mono = "mul" -> MulA(e.ar, x, y)
    [] e.mono = "sub" -> SubA(e.ar, x, y)
    [] e.mono = "lin" -> AddA(e.ar, AddA(e.ar, x, x), y)
    [] e.mono = "max" -> IF LessA(e.ar, e.uns, x, y) THEN y ELSE x
    [] e.mono = "min" -> IF LessA(e.ar, e.uns, x, y) THEN x ELSE y
    [] e.mono = "lst" -> y
    [] e.mono = "cat" -> AddA(e.ar, MulA(e.ar, x, Sixteen(e.ar)), y)
    [] e.mono = "and" -> x * y
    [] e.mono = "or"  -> IF x + y > 0 THEN 1 ELSE 0
    [] e.mono = "imp" -> IF x = 1 /\ y = 0 THEN 0 ELSE 1
Fold(e, q) == FoldLeft(LAMBDA x, y : Op(e, x, y), e.unit, q)

StreamOK(e) == /\ e.zero = e.unit
               /\ e.got = <<Fold(e, e.vals)>>
               /\ e.more = FALSE

Sel(e, i) == e.mask.d # <<>> /\ e.mask.d[i] # 0
(* the cells of column c, or all of them; a dense format stores its zeros *)
All(e) == [i \in DOMAIN e.s.d |-> i]
ColCells(e, c) == [r \in 1 .. e.s.r |-> Idx(e.s, r - 1, c)]
Unmasked(e, q, colwise) == SelectSeq(q, LAMBDA i : ~Sel(e, IF colwise THEN RowOf(e.s, i) + 1 ELSE i))
Folds(e, q, colwise) ==
  LET u == Unmasked(e, q, colwise)
      z == ZeroA(e.ar)
      nz == [i \in DOMAIN u |-> e.s.d[u[i]]]
      full == Fold(e, nz)
      some == Fold(e, SelectSeq(nz, LAMBDA v : v # z))
  IN IF e.s.k \in DenseKinds THEN {full} ELSE {some}
Vec(e) == e.form \in {"MV", "MVid"}
ResultOK(e, got) ==
  IF Vec(e) THEN /\ Len(got) = e.s.c
                 /\ \A c \in 1 .. e.s.c : got[c] \in Folds(e, ColCells(e, c - 1), TRUE)
  ELSE Len(got) = 1 /\ got[1] \in Folds(e, All(e), FALSE)
ReduceOK(e) == /\ \A i \in DOMAIN e.got : ResultOK(e, e.got[i])
               /\ \A i \in DOMAIN e.got : e.got[i] = e.got[1]
OK(e) == /\ e.out = "ok" /\ e.left = 0
         /\ IF e.op = "Stream" THEN StreamOK(e) ELSE ReduceOK(e)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
