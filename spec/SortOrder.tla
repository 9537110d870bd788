----------------------------- MODULE SortOrder -----------------------------
(* C18: the order of rune matrices and the relation between a matrix and its
   sorted rows (or columns).  Lines are sequences of code points. *)
EXTENDS Values

(* lexicographic order by code point *)
LexLess(x, y) ==
  LET differ == {i \in DOMAIN x \cap DOMAIN y : x[i] # y[i]}
      first == CHOOSE i \in differ : \A j \in differ : i <= j
  IN IF differ = {} THEN Len(x) < Len(y) ELSE x[first] < y[first]
CompareDef(x, y) == IF x = y THEN 0 ELSE IF LexLess(x, y) THEN -1 ELSE 1

Lines(o, axis) == IF axis = "rows" THEN [i \in 1 .. o.r |-> Row(o, i - 1)] ELSE [i \in 1 .. o.c |-> Column(o, i - 1)]
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Permutes(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Times(s, s[i]) = Times(t, s[i])
Ordered(s) == \A i \in 1 .. Len(s) - 1 : ~LexLess(s[i + 1], s[i])
SortedFrom(axis, before, after) ==
  /\ SameShape(before, after)
  /\ Permutes(Lines(before, axis), Lines(after, axis))
  /\ Ordered(Lines(after, axis))

(* UTF-8: the comparison of encodings is the comparison of code points *)
Utf8(p) == CASE p < 128   -> <<p>>
             [] p < 2048  -> <<192 + (p \div 64), 128 + (p % 64)>>
             [] p < 65536 -> <<224 + (p \div 4096), 128 + ((p \div 64) % 64), 128 + (p % 64)>>
             [] OTHER     -> <<240 + (p \div 262144), 128 + ((p \div 4096) % 64), 128 + ((p \div 64) % 64), 128 + (p % 64)>>
Encode(x) == FoldLeft(LAMBDA s, p : s \o Utf8(p), <<>>, x)
=============================================================================
