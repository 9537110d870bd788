------------------------------ MODULE OpSteps ------------------------------
(* Design model of the loops behind the operations: elements are visited one at
   a time (in any order), each visit writes the output, the context may be
   cancelled between any two visits, and operands may be the output object or
   each other.  The result has to satisfy the relation of Ops for the operands'
   contents at the call (C06-C09, C21), a cancelled run leaves every output cell
   old or final (C11), and nothing but the output is ever written (C04). *)
EXTENDS Ops

CONSTANTS Fams, R, C, Vals, Olds, Masks, Aliases, Copying, MaskObjs, AR
(* AR: the arithmetic, see Values (0 or 1); MaskObjs: the mask is an object of its
   own ("own") or one of the operands, which the call may be writing.  Copying = FALSE leaves out the copies the code makes of operands that are
   also the output; the model then has to fail (see bin/check.py, sanity) *)

VARIABLES f, alias, sk, mk,        \* the call
          s0, m0, o0, mask, mo,    \* contents at the call; which object the mask is
          h,                       \* heap: contents of the objects "s", "m", "o" and of private copies
          sp, mp, op,              \* which object each argument is (copies change this)
          phase, todo, row, cancelled
vars == <<f, alias, sk, mk, s0, m0, o0, mask, mo, h, sp, mp, op, phase, todo, row, cancelled>>

N == R * C
Cells == 1 .. N
Mirror(i) == LET r == (i - 1) \div C  c == (i - 1) % C IN c * R + r + 1
Obj2(k, d) == Mat(k, R, C, d)
OutC == IF f = "trans" THEN R ELSE C
MaskRec == Mat("user", 0, 0, mask)
Masked(i) == IF mo = "own" THEN Selected(MaskRec, i) ELSE h[mo][i] # 0        \* as the mask is now
Masked0(i) == CASE mo = "own" -> Selected(MaskRec, i) [] mo = "s" -> s0[i] # 0 [] OTHER -> m0[i] # 0   \* as it was at the call
Differ(x, y) == x # y \/ (AR = 1 /\ x = NaN)

(* objects are named; an alias makes two arguments the same object *)
SObj(a) == "s"
MObj(a) == IF a \in {"sm", "all"} THEN "s" ELSE "m"
OObj(a) == CASE a \in {"s", "all"} -> "s" [] a = "m" -> "m" [] OTHER -> "o"
Unary1(g) == g \in {"apply", "neg", "trans"}
KindOfPtr(q) == CASE q \in {"s", "cs"} -> sk [] q \in {"m", "cm"} -> mk [] OTHER -> "dn"

StoredOf(q, hh) == IF KindOfPtr(q) \in DenseKinds THEN Cells ELSE NonZero(hh[q])

Init ==
  /\ f \in Fams /\ alias \in Aliases
  /\ Unary1(f) => alias \in {"none", "s"}
  /\ f = "trans" /\ alias = "s" => R = C
  /\ f = "mul" => R = C
  /\ sk \in {"dn", "csr"} /\ mk \in {"dn", "csr"}
  /\ alias \in {"sm", "all"} => mk = sk
  /\ s0 \in [Cells -> Vals]
  /\ m0 \in IF Unary1(f) THEN {Zeros(N)} ELSE IF alias \in {"sm", "all"} THEN {s0} ELSE [Cells -> Vals]
  /\ o0 \in CASE OObj(alias) = "s" -> {s0} [] OObj(alias) = "m" -> {m0} [] OTHER -> [Cells -> Olds]
  /\ mo \in MaskObjs
  /\ mo = "m" => ~Unary1(f) /\ alias \notin {"sm", "all"}
  /\ mo # "own" /\ f = "trans" => R = C
  /\ mask \in {<<>>} \cup (IF mo = "own" THEN [Cells -> Masks] ELSE {})
  /\ h = [q \in {"s", "m", "o", "cs", "cm"} |-> CASE q = "s" -> s0 [] q = "m" -> m0 [] q = "o" -> o0 [] OTHER -> Zeros(N)]
  /\ sp = SObj(alias) /\ mp = MObj(alias) /\ op = OObj(alias)
  /\ phase = "start" /\ todo = {} /\ row = Zeros(C) /\ cancelled = FALSE

CopyS == Copying /\ sp = op /\ \/ f \in {"add", "sub", "trans"}
                               \/ f = "inter" /\ mp = op
CopyM == Copying /\ \/ f \in {"add", "sub", "mul"} /\ mp = op
                    \/ f = "union" /\ mp = op /\ sp # op

First(hh, s, m) ==
  CASE f \in {"add", "sub", "apply", "neg", "trans"} -> StoredOf(s, hh)
    [] f = "union" -> IF s = op THEN {} ELSE StoredOf(s, hh)
    [] f = "inter" -> CASE m = op -> StoredOf(s, hh)
                        [] s = op -> StoredOf(m, hh)
                        [] sk \notin DenseKinds -> StoredOf(s, hh)
                        [] OTHER -> StoredOf(m, hh)
    [] f = "mul" -> Cells

Start ==
  /\ phase = "start"
  /\ LET hh == [h EXCEPT !.cs = IF CopyS THEN h[sp] ELSE @, !.cm = IF CopyM THEN h[mp] ELSE @]
         s == IF CopyS THEN "cs" ELSE sp
         m == IF CopyM THEN "cm" ELSE mp
     IN h' = hh /\ sp' = s /\ mp' = m /\ todo' = First(hh, s, m)
  /\ phase' = "one"
  /\ UNCHANGED <<f, alias, sk, mk, s0, m0, o0, mask, mo, op, row, cancelled>>

Put(i, v) == h' = [h EXCEPT ![op][i] = v]
Keep == UNCHANGED h

Visit1(i) ==
  CASE f = "add" -> IF Masked(i) THEN Keep ELSE Put(i, AddA(AR, h[mp][i], h[sp][i]))
    [] f = "sub" -> IF Masked(i) THEN Keep ELSE Put(i, SubA(AR, h[sp][i], h[mp][i]))
    [] f = "union" -> IF h[sp][i] = 0 \/ h[mp][i] # 0 \/ Masked(i) THEN Keep ELSE Put(i, h[sp][i])
    [] f = "inter" ->
         LET inPlace == mp = op \/ sp = op
             it  == CASE mp = op -> sp [] sp = op -> mp [] sk \notin DenseKinds -> sp [] OTHER -> mp
             src == CASE mp = op -> mp [] sp = op -> sp [] sk \notin DenseKinds -> mp [] OTHER -> sp
         IN IF Masked(i) THEN Keep
            ELSE IF inPlace THEN Put(i, IF Differ(h[it][i], h[src][i]) THEN 0 ELSE h[src][i])
            ELSE IF Differ(h[it][i], h[src][i]) THEN Keep ELSE Put(i, h[it][i])
    [] f = "apply" -> IF Masked(i) THEN Keep ELSE Put(i, AddA(AR, h[sp][i], 1))
    [] f = "neg" -> IF Masked(i) THEN Keep ELSE Put(i, NegA(AR, h[sp][i]))
    [] f = "trans" ->
         LET j == Mirror(i)
             hh == [h EXCEPT ![op][j] = IF Masked(j) THEN @ ELSE h[sp][i]]
         IN h' = IF alias = "s" /\ h[sp][j] = 0 /\ ~Masked(i) THEN [hh EXCEPT ![op][i] = 0] ELSE hh
    [] OTHER -> Keep
Visit2(i) ==
  CASE f = "add" -> IF h[sp][i] = 0 /\ ~Masked(i) THEN Put(i, h[mp][i]) ELSE Keep
    [] f = "sub" -> IF h[sp][i] = 0 /\ ~Masked(i) THEN Put(i, NegA(AR, h[mp][i])) ELSE Keep
    [] f = "union" -> IF h[mp][i] = 0 \/ Masked(i) THEN Keep ELSE Put(i, h[mp][i])
    [] OTHER -> Keep

Step1 == /\ phase = "one" /\ f # "mul" /\ \E i \in todo : Visit1(i) /\ todo' = todo \ {i}
         /\ UNCHANGED <<f, alias, sk, mk, s0, m0, o0, mask, mo, sp, mp, op, phase, row, cancelled>>
(* products go through the output in row-major order; the row of s is taken when
   the row is entered, the columns of m are read as they are needed *)
MulStep ==
  /\ phase = "one" /\ f = "mul" /\ todo # {}
  /\ LET i == CHOOSE x \in todo : \A y \in todo : x <= y
         r == (i - 1) \div C
         c == (i - 1) % C
         rw == IF c = 0 THEN Row(Obj2(sk, h[sp]), r) ELSE row
         v == Dot(AR, Mat("dn", 1, C, rw), Obj2(mk, h[mp]), 0, c)
     IN /\ row' = rw
        /\ IF Masked(i) THEN Keep ELSE Put(i, v)
        /\ todo' = todo \ {i}
  /\ UNCHANGED <<f, alias, sk, mk, s0, m0, o0, mask, mo, sp, mp, op, phase, cancelled>>
Second == /\ phase = "one" /\ todo = {}
          /\ IF f \in {"add", "sub"} \/ (f = "union" /\ mp # op)
             THEN phase' = "two" /\ todo' = StoredOf(mp, h)
             ELSE phase' = "done" /\ todo' = {}
          /\ UNCHANGED <<f, alias, sk, mk, s0, m0, o0, mask, mo, h, sp, mp, op, row, cancelled>>
Step2 == /\ phase = "two" /\ \E i \in todo : Visit2(i) /\ todo' = todo \ {i}
         /\ UNCHANGED <<f, alias, sk, mk, s0, m0, o0, mask, mo, sp, mp, op, phase, row, cancelled>>
End   == /\ phase = "two" /\ todo = {} /\ phase' = "done"
         /\ UNCHANGED <<f, alias, sk, mk, s0, m0, o0, mask, mo, h, sp, mp, op, todo, row, cancelled>>
Cancel == /\ phase \in {"one", "two"} /\ todo # {} /\ phase' = "done" /\ cancelled' = TRUE
          /\ UNCHANGED <<f, alias, sk, mk, s0, m0, o0, mask, mo, h, sp, mp, op, todo, row>>
Next == Start \/ Step1 \/ MulStep \/ Second \/ Step2 \/ End \/ Cancel \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Step1 \/ MulStep \/ Second \/ Step2 \/ End)

(* ---- properties ---- *)
Out == h[OObj(alias)]
Final(i) == Allowed(f, AR, 1, "inc", 0, Obj2(sk, s0), Obj2(mk, m0), OutC, i, o0[i])
Complete == phase = "done" /\ ~cancelled =>
  \A i \in Cells : Out[i] \in IF Masked0(i) THEN {o0[i]} ELSE Final(i)
OldOrFinal == \A i \in Cells : Out[i] = o0[i] \/ (~Masked0(i) /\ Out[i] \in Final(i))
OperandsKept == /\ OObj(alias) # "s" => h["s"] = s0
                /\ OObj(alias) # "m" => h["m"] = m0
                /\ OObj(alias) # "o" => h["o"] = o0
(* an object is not enumerated while elements are added to it or removed from it:
   the positions an enumeration of a compressed object goes by would shift *)
Enumerated == CASE phase = "two" -> mp
                [] f # "inter" -> sp
                [] OTHER -> CASE mp = op -> sp [] sp = op -> mp [] sk \notin DenseKinds -> sp [] OTHER -> mp
AtCall(q) == IF q \in {"s", "cs"} THEN s0 ELSE m0
Steady == phase \in {"one", "two"} /\ todo # {} /\ f # "mul" /\ f # "apply" =>
  NonZero(h[Enumerated]) = NonZero(AtCall(Enumerated))
Ends == <>(phase = "done")
=============================================================================
