----------------------------- MODULE Operators -----------------------------
(* C20: the functions the library's operators name, for every arithmetic of Values.
   Floating-point arguments (ar = 0) also take the values NaN and the two
   infinities. *)
EXTENDS Values

ArithOps == {"first", "second", "min", "max", "add", "sub", "mul", "div", "lin"}
CmpOps   == {"eq", "ne", "gt", "lt", "ge", "le", "twice"}

(* the order, false whenever NaN takes part *)
Rank(x) == IF x = PInf THEN 1000000000 ELSE IF x = NInf THEN -1000000000 ELSE x
Lt(ar, uns, x, y) == IF ar = 0 THEN x # NaN /\ y # NaN /\ Rank(x) < Rank(y) ELSE LessA(ar, uns, x, y)
Eq(ar, x, y) == x = y /\ (ar = 0 => x # NaN)

(* the quotient of x and y # 0, times 16; only asked for where that is a whole number *)
FDiv(x, y) == IF x = NaN \/ y = NaN THEN NaN
              ELSE IF Special(x) /\ Special(y) THEN NaN
              ELSE IF Special(x) THEN Signed1(Sgn(x) * Sgn(y))
              ELSE IF Special(y) THEN 0 ELSE (16 * x * Sgn(y)) \div (y * Sgn(y))

(* integer division: towards zero *)
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Trunc0(x, y) == LET q == AbsI(x) \div AbsI(y) IN IF (x < 0) # (y < 0) THEN 0 - q ELSE q
DivN(ar, uns, x, y) == IF uns THEN Wrap(ar, (x % Pow2(ar)) \div (y % Pow2(ar))) ELSE Wrap(ar, Trunc0(x, y))

(* the product of two unsigned numbers of five limbs, ten limbs *)
FullMul(x, y) ==
  LET col(k) == FoldLeft(LAMBDA s, i : s + (IF k - i \in 1 .. 5 /\ i <= 5 THEN x[i] * y[k - i] ELSE 0), 0, <<1, 2, 3, 4, 5>>)
      step(s, k) == LET v == col(k + 1) + s.c IN [l |-> Append(s.l, v % LB), c |-> v \div LB]
  IN FoldLeft(step, [l |-> <<>>, c |-> 0], <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>).l
LAbs(bits, uns, x) == IF ~uns /\ LSign(bits, x) THEN LNeg(bits, x) ELSE x
(* q is the quotient of x and y # 0: |x| = |q| |y| + rest with 0 <= rest < |y| *)
LDivOK(bits, uns, x, y, q) ==
  LET ax == LAbs(bits, uns, x)
      ay == LAbs(bits, uns, y)
      aq == LAbs(bits, uns, q)
      m  == FullMul(aq, ay)
      lo == SubSeq(m, 1, 5)
      differ == ~uns /\ LSign(bits, x) # LSign(bits, y)
  IN /\ \A i \in 6 .. 10 : m[i] = 0
     /\ ~LULess(ax, lo)
     /\ LULess(LAdd(64, ax, LNeg(64, lo)), ay)
     /\ q = IF differ THEN LNeg(bits, aq) ELSE aq

BinDef(ar, uns, f, x, y) ==
  CASE f = "first"  -> x
    [] f = "second" -> y
    [] f = "min" -> IF Lt(ar, uns, x, y) THEN x ELSE y
    [] f = "max" -> IF Lt(ar, uns, y, x) THEN x ELSE y
    [] f = "add" -> IF ar = 0 THEN FAdd(x, y) ELSE AddA(ar, x, y)
    [] f = "sub" -> IF ar = 0 THEN FAdd(x, FNeg(y)) ELSE SubA(ar, x, y)
    [] f = "mul" -> IF ar = 0 THEN FMul(x, y) ELSE MulA(ar, x, y)
    [] f = "lin" -> IF ar = 0 THEN FAdd(FAdd(x, x), y) ELSE AddA(ar, AddA(ar, x, x), y)     \* the user's own function
BinOK(ar, uns, f, x, y, res) ==
  IF f = "div"
  THEN CASE ar = 0 -> y = 0 \/ res = FDiv(x, y)
         [] ar \in {8, 16} -> y = 0 \/ res = DivN(ar, uns, x, y)
         [] OTHER -> y = ZeroA(ar) \/ LDivOK(ar - 100, uns, x, y, res)
  ELSE res = BinDef(ar, uns, f, x, y)
CmpDef(ar, uns, f, x, y) ==
  CASE f = "eq" -> Eq(ar, x, y)
    [] f = "ne" -> ~Eq(ar, x, y)
    [] f = "gt" -> Lt(ar, uns, y, x)
    [] f = "lt" -> Lt(ar, uns, x, y)
    [] f = "ge" -> Lt(ar, uns, y, x) \/ Eq(ar, x, y)
    [] f = "le" -> Lt(ar, uns, x, y) \/ Eq(ar, x, y)
    [] f = "twice" -> Eq(ar, BinDef(ar, uns, "add", x, x), y)        \* the user's own function
BoolDef(f, x, y) ==
  CASE f = "or" -> x \/ y [] f = "and" -> x /\ y [] f = "xor" -> x # y [] f = "not" -> ~x

MonoidDef(ar, uns, m, xs) == FoldLeft(LAMBDA s, x : BinDef(ar, uns, m, s, x), ZeroA(ar), xs)
=============================================================================
