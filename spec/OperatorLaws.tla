---------------------------- MODULE OperatorLaws ----------------------------
(* C20, design model: elements of a stream are combined pairwise, in any order and any
   grouping, starting with any number of identities.  For the default monoids the
   outcome is always the fold from the identity; the laws of the other operators are
   checked as assumptions in small widths. *)
EXTENDS Operators, TLC, Bags
CONSTANTS Op, Width, Uns, Elements, MaxLen
Some == {-4, -1, 0, 1, 3}
NonNeg == {0, 1, 2, 3}
VARIABLES xs, bag
vars == <<xs, bag>>
Less(x, y) == IF Uns THEN x % Pow2(Width) < y % Pow2(Width) ELSE x < y
Apply(x, y) == CASE Op = "add" -> Wrap(Width, x + y)
                 [] Op = "sub" -> Wrap(Width, x - y)
                 [] Op = "max" -> IF Less(y, x) THEN x ELSE y
                 [] Op = "second" -> y
Seqs == UNION {[1 .. n -> Elements] : n \in 0 .. MaxLen}
Init == xs \in Seqs /\ bag = SetToBag({0}) (+) FoldLeft(LAMBDA b, x : b (+) SetToBag({x}), EmptyBag, xs)
Combine == \E x \in BagToSet(bag) : \E y \in BagToSet(bag (-) SetToBag({x})) :
              bag' = ((bag (-) SetToBag({x})) (-) SetToBag({y})) (+) SetToBag({Apply(x, y)})
Identity == BagCardinality(bag) <= 2 /\ CopiesIn(0, bag) = 0 /\ bag' = bag (+) SetToBag({0})
Next == (Combine \/ Identity \/ UNCHANGED bag) /\ UNCHANGED xs
Fold == FoldLeft(Apply, 0, xs)
(* the identity changes nothing *)
Neutral == xs # <<>> => Fold = FoldLeft(Apply, xs[1], Tail(xs))
Exact == BagCardinality(bag) = 1 => BagToSet(bag) = {Fold}

(* laws, for all values of four bits *)
W4 == -8 .. 7
Less4(uns, x, y) == IF uns THEN x % 16 < y % 16 ELSE x < y
ASSUME \A x, y \in W4 :
  /\ \A uns \in BOOLEAN :
       LET mn == IF Less4(uns, x, y) THEN x ELSE y
           mx == IF Less4(uns, y, x) THEN x ELSE y
       IN {mn, mx} = {x, y} /\ ~Less4(uns, mx, mn)
  /\ y # 0 => LET q == Trunc0(x, y) IN
       /\ AbsI(x - q * y) < AbsI(y) /\ (x - q * y) * x >= 0
       /\ \A p \in -16 .. 16 : AbsI(x - p * y) < AbsI(y) /\ (x - p * y) * x >= 0 => (p = q \/ x = p * y)
ASSUME \A x, y \in BOOLEAN :
  /\ BoolDef("xor", x, y) = BoolDef("and", BoolDef("or", x, y), BoolDef("not", BoolDef("and", x, y), x))
  /\ BoolDef("not", BoolDef("or", x, y), x) = BoolDef("and", ~x, ~y)
(* limbs compute what integers compute *)
LimbsOf(x) == LET d == [i \in 1 .. 5 |-> (IF i > 3 THEN 0 ELSE (AbsI(x) \div (LB ^ (IF i > 3 THEN 0 ELSE i - 1))) % LB)] IN IF x < 0 THEN LNeg(64, d) ELSE d
Marks == {0, 1, -1, 2, -2, 3, 4095, 4096, -4096, 8191, 8192, -8192, -8193, 32767, -32768}
ASSUME \A x, y \in Marks :
  /\ LAdd(64, LimbsOf(x), LimbsOf(y)) = LimbsOf(x + y)
  /\ LMul(64, LimbsOf(x), LimbsOf(y)) = LimbsOf(x * y)
  /\ LLess(64, LimbsOf(x), LimbsOf(y)) = (x < y)
  /\ y # 0 => \A d \in {-1, 0, 1} : LDivOK(64, FALSE, LimbsOf(x), LimbsOf(y), LimbsOf(Trunc0(x, y) + d)) = (d = 0)
=============================================================================
