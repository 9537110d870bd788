------------------------------ MODULE Values ------------------------------
(* Contents of matrices and vectors as the specification sees them, and the
   arithmetic of the library's element types.

   An object is a record [k, r, c, d]: storage format, rows, columns and the
   cells in row-major order.  Cells are integers: opaque tokens for storage
   properties (0 is the zero value), numbers for arithmetic ones. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MatKinds    == {"dm", "dn", "csr", "csc"}
VecKinds    == {"dv", "dvn", "sv"}
SparseKinds == {"csr", "csc", "sv"}
DenseKinds  == {"dm", "dn", "dv", "dvn"}
Kinds       == MatKinds \cup VecKinds

Idx(o, r, c)   == r * o.c + c + 1               \* 0-based coordinates
Cell(o, r, c)  == o.d[Idx(o, r, c)]
RowOf(o, k)    == (k - 1) \div o.c
ColOf(o, k)    == (k - 1) % o.c
InRange(o, r, c) == r \in 0 .. o.r - 1 /\ c \in 0 .. o.c - 1
Signed  == {-1, 0, 1}
Signed2 == {-1, 0}
Zeros(n)       == [i \in 1 .. n |-> 0]
Obj(k, r, c)   == [k |-> k, r |-> r, c |-> c, d |-> Zeros(r * c)]
Mat(k, r, c, d) == [k |-> k, r |-> r, c |-> c, d |-> d]
NonZero(d)     == {i \in DOMAIN d : d[i] # 0}
Row(o, r)      == [i \in 1 .. o.c |-> Cell(o, r, i - 1)]
Column(o, c)   == [i \in 1 .. o.r |-> Cell(o, i - 1, c)]
SameShape(a, b) == a.r = b.r /\ a.c = b.c
SameContents(a, b) == SameShape(a, b) /\ a.d = b.d
TransposeOf(o) == [k |-> o.k, r |-> o.c, c |-> o.r,
                   d |-> [i \in 1 .. o.r * o.c |-> Cell(o, (i - 1) % o.r, (i - 1) \div o.r)]]

(* Arithmetic.  ar selects it:
     0        unbounded integers (small values of wide types, scaled floats)
     1        floating point: small integers, NaN and the infinities
     8, 16    two's complement of that width
     132, 164 two's complement of 32 or 64 bits, five 13-bit limbs, low first *)
NaN  == 1000000009
PInf == 1000000021
NInf == 1000000033
NegZ == 1000000087      \* negative zero, told from zero only where an operator can
SpecialVals == {0, 1, NaN, PInf, NInf}
FewSpecial == {0, 1, NaN, PInf}
Special(x) == x \in {NaN, PInf, NInf}
(* arithmetic on the extended reals *)
Sgn(x) == IF x = PInf THEN 1 ELSE IF x = NInf THEN -1 ELSE IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
FNeg(x) == IF x = PInf THEN NInf ELSE IF x = NInf THEN PInf ELSE IF x = NaN THEN NaN ELSE 0 - x
Signed1(s) == IF s > 0 THEN PInf ELSE NInf
FAdd(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE IF ~Special(x) /\ ~Special(y) THEN x + y
              ELSE IF Special(x) /\ Special(y) THEN (IF x = y THEN x ELSE NaN)
              ELSE IF Special(x) THEN x ELSE y
FMul(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE IF ~Special(x) /\ ~Special(y) THEN x * y
              ELSE IF Sgn(x) * Sgn(y) = 0 THEN NaN ELSE Signed1(Sgn(x) * Sgn(y))
NoSign(x) == IF x = NegZ THEN 0 ELSE x

Pow2(n) == 2 ^ n
Wrap(b, x) == LET m == x % Pow2(b) IN IF m >= Pow2(b - 1) THEN m - Pow2(b) ELSE m

LB == 8192
Trunc(bits, l) ==      \* cut five limbs (65 bits) to the width
  IF bits = 64 THEN [l EXCEPT ![5] = @ % 4096]
  ELSE <<l[1], l[2], l[3] % 64, 0, 0>>
Carry(l) ==            \* propagate carries; the carry out of limb 5 is dropped
  LET c1 == l[1] \div LB
      s2 == l[2] + c1  c2 == s2 \div LB
      s3 == l[3] + c2  c3 == s3 \div LB
      s4 == l[4] + c3  c4 == s4 \div LB
      s5 == l[5] + c4
  IN <<l[1] % LB, s2 % LB, s3 % LB, s4 % LB, s5 % LB>>
LAdd(bits, x, y) == Trunc(bits, Carry([i \in 1 .. 5 |-> x[i] + y[i]]))
LNeg(bits, x) == Trunc(bits, Carry([i \in 1 .. 5 |-> (LB - 1 - x[i]) + (IF i = 1 THEN 1 ELSE 0)]))
LMul(bits, x, y) ==
  Trunc(bits, Carry(<<x[1]*y[1],
                      x[1]*y[2] + x[2]*y[1],
                      x[1]*y[3] + x[2]*y[2] + x[3]*y[1],
                      x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1],
                      x[1]*y[5] + x[2]*y[4] + x[3]*y[3] + x[4]*y[2] + x[5]*y[1]>>))
LSign(bits, x) == IF bits = 64 THEN x[5] >= 2048 ELSE x[3] >= 32
LULess(x, y) ==        \* unsigned
  \E i \in 1 .. 5 : x[i] < y[i] /\ \A j \in i + 1 .. 5 : x[j] = y[j]
LLess(bits, x, y) ==   \* signed
  LET sx == LSign(bits, x) sy == LSign(bits, y)
  IN IF sx # sy THEN sx ELSE LULess(x, y)

(* the order of the element type; uns: unsigned *)
LessA(ar, uns, x, y) ==
  CASE ar = 0 -> x < y
    [] ar = 1 -> x # NaN /\ y # NaN /\ x # y /\ (x = NInf \/ y = PInf \/ (~Special(x) /\ ~Special(y) /\ x < y))
    [] ar \in {8, 16} -> IF uns THEN x % Pow2(ar) < y % Pow2(ar) ELSE x < y
    [] OTHER -> IF uns THEN LULess(x, y) ELSE LLess(ar - 100, x, y)

ZeroA(ar) == IF ar >= 100 THEN <<0, 0, 0, 0, 0>> ELSE 0
AddA(ar, x, y) == CASE ar = 0 -> x + y
                    [] ar = 1 -> FAdd(x, y)
                    [] ar \in {8, 16} -> Wrap(ar, x + y)
                    [] OTHER -> LAdd(ar - 100, x, y)
NegA(ar, x)    == CASE ar = 0 -> 0 - x
                    [] ar = 1 -> FNeg(x)
                    [] ar \in {8, 16} -> Wrap(ar, 0 - x)
                    [] OTHER -> LNeg(ar - 100, x)
SubA(ar, x, y) == CASE ar = 0 -> x - y
                    [] ar = 1 -> FAdd(x, FNeg(y))
                    [] ar \in {8, 16} -> Wrap(ar, x - y)
                    [] OTHER -> LAdd(ar - 100, x, LNeg(ar - 100, y))
MulA(ar, x, y) == CASE ar = 0 -> x * y
                    [] ar = 1 -> FMul(x, y)
                    [] ar \in {8, 16} -> Wrap(ar, x * y)
                    [] OTHER -> LMul(ar - 100, x, y)
=============================================================================
