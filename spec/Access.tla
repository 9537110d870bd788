------------------------------- MODULE Access -------------------------------
(* C19: which calls are rejected.  A call with an index outside the object's
   dimensions, with operands that do not fit each other, or with a mask that
   does not fit the output, panics and changes nothing; every other call ends
   normally.  The module also enumerates the calls (as the initial states). *)
EXTENDS Values

Readers  == {"At", "Element", "ColumnsAt", "RowsAt", "RowsAtToArray", "AtVec"}
Writers  == {"Set", "Update", "SetRP", "UpdRP", "SetVec"}
OpsOf(k) == {"At", "Set", "Update", "ColumnsAt", "RowsAt", "RowsAtToArray"}
            \cup (IF k \in {"csr", "csc"} THEN {"SetRP", "UpdRP"} ELSE {})
            \cup (IF k \in VecKinds THEN {"AtVec", "SetVec"} ELSE {})
            \cup (IF k \in {"dn", "csr", "csc", "dvn", "sv", "mx"} THEN {"Element"} ELSE {})
Inside(op, r, c, i, j) ==
  CASE op = "ColumnsAt" -> j \in 0 .. c - 1
    [] op \in {"RowsAt", "RowsAtToArray", "AtVec", "SetVec"} -> i \in 0 .. r - 1
    [] OTHER -> i \in 0 .. r - 1 /\ j \in 0 .. c - 1

(* operations: s, m, mask and out are shapes <<rows, columns>>; mask may be <<>> *)
Fit(f, s, m) == CASE f = "mul" -> s[2] = m[1]
                  [] f \in {"add", "sub", "union", "inter"} -> s = m
                  [] OTHER -> TRUE
OutShape(f, s, m) == CASE f = "mul" -> <<s[1], m[2]>> [] f = "trans" -> <<s[2], s[1]>> [] OTHER -> s
MaskFits(mask, out) == mask = <<>> \/ mask = out
Accepted(f, s, m, mask, out) == Fit(f, s, m) /\ MaskFits(mask, out)

(* index checks, one cell of a trace *)
AccessOK(e) ==
  IF Inside(e.op, e.before.r, e.before.c, e.i, e.j)
  THEN e.out = "ok" /\ (e.op \in Readers => e.after = e.before)
                    /\ (e.op \in {"Update", "UpdRP"} => e.calls = 1)
  ELSE e.out = "panic" /\ e.after = e.before /\ e.calls = 0
Shape(o) == <<o.r, o.c>>
FitOK(e) ==
  LET mask == IF e.mask.k = "nil" THEN <<>> ELSE Shape(e.mask)
      out == IF e.fresh THEN OutShape(e.f, Shape(e.s), Shape(e.m)) ELSE Shape(e.old)
  IN IF Accepted(e.f, Shape(e.s), Shape(e.m), IF e.fresh THEN <<>> ELSE mask, out)
     THEN e.out = "ok"
     ELSE e.out = "panic" /\ (e.fresh \/ e.new = e.old) /\ e.s2 = e.s /\ e.m2 = e.m /\ e.mask2 = e.mask
ReduceFitOK(e) ==      \* the mask of a reduction has to fit what is reduced
  IF e.mask.k = "nil" \/ Shape(e.mask) = <<e.s.r, IF e.op = "ReduceVector" THEN 1 ELSE e.s.c>> THEN e.out = "ok"
  ELSE e.out = "panic" /\ e.s2 = e.s
BfsOK(e) ==
  IF e.before.r = e.before.c /\ e.i \in 0 .. e.before.r - 1 THEN e.out = "ok" /\ e.after = e.before
  ELSE e.out = "panic" /\ e.after = e.before
=============================================================================
