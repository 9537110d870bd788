----------------------------- MODULE Compressed -----------------------------
(* Design model of the compressed formats (CSR, CSC; with Major = 1 the sparse
   vector): sorted minor indices per major line, line starts, binary search,
   insertion and removal, and the iterator that survives removals while mapping.
   Structured like the code: one action per public call, except that mapping
   takes one action per element, so writes to the arrays under a running
   iterator are explored.  Checked to refine Store's cells (variable ref). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Major, Minor, Vals     \* 0 \in Vals
ASSUME 0 \in Vals

VARIABLES values, idx, start,    \* the representation (idx: cols or rows, start: rowStart or colStart)
          ref,                   \* what Store says the cells are: sequence of Major*Minor values
          it,                    \* map iterator: [on, r, ps, pe, last, size, todo, f]
          act                    \* label of the last action, for generating programs
vars == <<values, idx, start, ref, it, act>>

Lines  == 0 .. Major - 1
Minors == 0 .. Minor - 1
Pos(i, j) == i * Minor + j + 1

InsertAt(s, k, e) == SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))   \* before 0-based position k
RemoveAt(s, k)    == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))

(* columnIndex / rowIndex / index, loop by loop, with a fuel bound *)
RECURSIVE Bisect(_, _, _, _)
Bisect(lo, hi, j, fuel) ==
  IF fuel = 0 THEN Assert(FALSE, "binary search does not end")
  ELSE IF lo >= hi THEN <<lo, hi>>
  ELSE LET m == (lo + hi) \div 2
       IN IF idx[m + 1] > j THEN Bisect(lo, m, j, fuel - 1)
          ELSE IF idx[m + 1] < j THEN Bisect(m + 1, hi, j, fuel - 1)
          ELSE <<m, hi>>
Search(i, j) ==
  LET s == start[i + 1] e == start[i + 2]
  IN IF s = e THEN <<s, e>>
     ELSE IF j > idx[e] THEN <<e, e>>
     ELSE Bisect(s, e, j, Minor + 2)
Found(i, j)  == LET q == Search(i, j) IN q[1] < q[2] /\ idx[q[1] + 1] = j
Lookup(i, j) == IF Found(i, j) THEN values[Search(i, j)[1] + 1] ELSE 0

Shift(i, by) == [k \in DOMAIN start |-> IF k > i + 1 THEN start[k] + by ELSE start[k]]

Put(i, j, v) ==            \* UpdateReturnPointer with the value already computed
  LET q == Search(i, j)[1]
  IN IF Found(i, j)
     THEN IF v = 0
          THEN values' = RemoveAt(values, q) /\ idx' = RemoveAt(idx, q) /\ start' = Shift(i, -1)
          ELSE values' = [values EXCEPT ![q + 1] = v] /\ UNCHANGED <<idx, start>>
     ELSE IF v = 0
          THEN UNCHANGED <<values, idx, start>>
          ELSE values' = InsertAt(values, q, v) /\ idx' = InsertAt(idx, q, j) /\ start' = Shift(i, 1)

Off == [on |-> FALSE, r |-> 0, ps |-> 0, pe |-> 0, last |-> 0, size |-> 0, seen |-> <<>>, f |-> <<>>, base |-> <<>>]
Fns == [Vals -> Vals]

Init == /\ values = <<>> /\ idx = <<>> /\ start = [k \in 1 .. Major + 1 |-> 0]
        /\ ref = [k \in 1 .. Major * Minor |-> 0] /\ it = Off /\ act = <<"new">>

Set(i, j, v) == /\ ~it.on /\ Put(i, j, v) /\ ref' = [ref EXCEPT ![Pos(i, j)] = v]
                /\ act' = <<"set", i, j, v>> /\ it' = it
Update(i, j, f) == /\ ~it.on /\ Put(i, j, f[Lookup(i, j)])
                   /\ ref' = [ref EXCEPT ![Pos(i, j)] = f[@]]
                   /\ act' = <<"upd", i, j, f>> /\ it' = it
Clear == /\ ~it.on /\ values' = <<>> /\ idx' = <<>> /\ start' = [k \in 1 .. Major + 1 |-> 0]
         /\ ref' = [k \in DOMAIN ref |-> 0] /\ act' = <<"clear">> /\ it' = it

MapBegin(f) == /\ ~it.on
               /\ it' = [on |-> TRUE, r |-> -1, ps |-> 0, pe |-> 0, last |-> 0, size |-> Len(values),
                         seen |-> <<>>, f |-> f, base |-> ref]
               /\ act' = <<"map", f>> /\ UNCHANGED <<values, idx, start, ref>>
(* next(): advance to the first line with elements left *)
NextLine(r, ps, pe) ==
  IF ps # pe THEN <<r, ps, pe>>
  ELSE LET rr == CHOOSE x \in r + 1 .. Major - 1 :
                    start[x + 1] # start[x + 2] /\ \A y \in r + 1 .. x - 1 : start[y + 1] = start[y + 2]
       IN <<rr, start[rr + 1], start[rr + 2]>>
MapStep == /\ it.on /\ it.last < it.size
           /\ LET n == NextLine(it.r, it.ps, it.pe)
                  k == n[2]
                  j == idx[k + 1]
                  v == it.f[values[k + 1]]
              IN /\ ref' = [ref EXCEPT ![Pos(n[1], j)] = it.f[@]]
                 /\ IF v # 0
                    THEN /\ values' = [values EXCEPT ![k + 1] = v] /\ UNCHANGED <<idx, start>>
                         /\ it' = [it EXCEPT !.r = n[1], !.ps = k + 1, !.pe = n[3], !.last = @ + 1,
                                             !.seen = Append(@, Pos(n[1], j))]
                    ELSE /\ values' = RemoveAt(values, k) /\ idx' = RemoveAt(idx, k) /\ start' = Shift(n[1], -1)
                         /\ it' = [it EXCEPT !.r = n[1], !.ps = k, !.pe = n[3] - 1, !.size = @ - 1,
                                             !.seen = Append(@, Pos(n[1], j))]
           /\ act' = <<"step">>
MapEnd == it.on /\ it.last >= it.size /\ it' = Off /\ act' = <<"end">> /\ UNCHANGED <<values, idx, start, ref>>

Next == \/ \E i \in Lines, j \in Minors, v \in Vals : Set(i, j, v)
        \/ \E i \in Lines, j \in Minors, f \in Fns : Update(i, j, f)
        \/ Clear
        \/ \E f \in Fns : MapBegin(f)
        \/ MapStep
        \/ MapEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(MapStep) /\ WF_vars(MapEnd)

(* ---- properties ---- *)
WellFormed ==
  /\ start[1] = 0 /\ start[Major + 1] = Len(values) /\ Len(idx) = Len(values)
  /\ \A k \in 1 .. Major : start[k] <= start[k + 1]
  /\ \A i \in Lines : \A a, b \in start[i + 1] + 1 .. start[i + 2] : a < b => idx[a] < idx[b]
  /\ \A k \in DOMAIN idx : idx[k] \in Minors
NoStoredZero == \A k \in DOMAIN values : values[k] # 0
LastWriteWins == \A i \in Lines, j \in Minors : Lookup(i, j) = ref[Pos(i, j)]      \* C01
CountsNonZero == Len(values) = Cardinality({k \in DOMAIN ref : ref[k] # 0})         \* C02
(* C03: at the end of a map every cell that was non-zero was visited exactly once *)
VisitedOnce == (it.on /\ it.last >= it.size) =>
  /\ Cardinality({it.seen[k] : k \in DOMAIN it.seen}) = Len(it.seen)
  /\ {it.seen[k] : k \in DOMAIN it.seen} = {k \in DOMAIN it.base : it.base[k] # 0}
  /\ \A k \in DOMAIN ref : ref[k] = IF it.base[k] # 0 THEN it.f[it.base[k]] ELSE 0
MapEnds == it.on ~> ~it.on

(* transitions are emitted for conformance testing: contents before, action *)
View == <<values, idx, start, it>>
Emit == (act'[1] \in {"set", "upd", "clear", "map"}) => PrintT(<<"GEN", ref, act'>>)
=============================================================================
