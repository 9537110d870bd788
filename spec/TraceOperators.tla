--------------------------- MODULE TraceOperators ---------------------------
(* Recorded applications of the library's operators, against the definition. *)
EXTENDS Operators, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE p
(* one row of an operation table of 8 bits: every second argument, in order from -128 *)
TableOK(e) == LET f == e.f u == e.uns x == e.x res == e.res
              IN Len(res) = 256 /\ \A i \in 1 .. 256 : BinOK(8, u, f, x, i - 129, res[i])
CmpTableOK(e) == LET f == e.f u == e.uns x == e.x res == e.res
                 IN Len(res) = 256 /\ \A i \in 1 .. 256 : (res[i] = 1) = CmpDef(8, u, f, x, i - 129)
PairsOK(e) == \A i \in 1 .. Len(e.xs) : BinOK(e.ar, e.uns, e.f, e.xs[i], e.ys[i], e.res[i])
CmpPairsOK(e) == \A i \in 1 .. Len(e.xs) : (e.res[i] = 1) = CmpDef(e.ar, e.uns, e.f, e.xs[i], e.ys[i])
BoolOK(e) == e.res = BoolDef(e.f, e.x, e.y)
UnaryOK(e) == \A i \in 1 .. Len(e.xs) : e.res[i] = BinDef(e.ar, e.uns, "add", e.xs[i], e.xs[i])
(* identity, empty and one-element streams, and longer ones in several orders *)
MonoidOK(e) == /\ e.zero = ZeroA(e.ar)
               /\ \A i \in 1 .. Len(e.runs) : e.runs[i].res = MonoidDef(e.ar, e.uns, e.f, e.runs[i].xs)
ZeroOK(e) == /\ e.zero = ZeroA(e.ar) /\ e.default = ZeroA(e.ar)
             /\ \A i \in 1 .. Len(e.xs) : e.is[i] = (e.xs[i] = ZeroA(e.ar))
OK(e) == /\ e.out = "ok"
         /\ CASE e.op = "Table" -> TableOK(e)
              [] e.op = "CmpTable" -> CmpTableOK(e)
              [] e.op = "Pairs" -> PairsOK(e)
              [] e.op = "CmpPairs" -> CmpPairsOK(e)
              [] e.op = "Bool" -> BoolOK(e)
              [] e.op = "Unary" -> UnaryOK(e)
              [] e.op = "Monoid" -> MonoidOK(e)
              [] e.op = "Zero" -> ZeroOK(e)
Init == p \in 1 .. Len(Trace)
Next == (OK(Trace[p]) = TRUE) /\ p' = p
=============================================================================
