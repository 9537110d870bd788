------------------------------- MODULE Store -------------------------------
(* The abstract machine behind every storage format: a heap of objects, each a
   grid of cells.  Every public call that reads or writes an object is one
   action.  The machine knows nothing about how a format stores its cells. *)
EXTENDS Values

VARIABLE heap          \* sequence of objects, addressed by position

Apply1(f, v) == IF v + 1 \in DOMAIN f THEN f[v + 1] ELSE v   \* function given as a table over tokens

New(k, r, c)      == heap' = Append(heap, Obj(k, r, c))
NewFrom(k, r, c, d) == heap' = Append(heap, Mat(k, r, c, d))

Write(o, r, c, v) == heap' = [heap EXCEPT ![o].d[Idx(heap[o], r, c)] = v]
Set(o, r, c, v)   == InRange(heap[o], r, c) /\ Write(o, r, c, v)
SetVec(o, i, v)   == heap[o].k \in VecKinds /\ Set(o, i, 0, v)
(* the function of an update sees the current value of the cell, once *)
Update(o, r, c, f, calls) ==
  /\ InRange(heap[o], r, c)
  /\ calls = <<Cell(heap[o], r, c)>>
  /\ Write(o, r, c, Apply1(f, Cell(heap[o], r, c)))
(* an update whose function panics writes nothing *)
UpdateThrown(o, r, c, calls) ==
  /\ InRange(heap[o], r, c)
  /\ calls = <<Cell(heap[o], r, c)>>
  /\ UNCHANGED heap
(* many writes in a row, seen only at the end *)
Bulk(o, w) ==
  /\ (\A i \in DOMAIN w : InRange(heap[o], w[i][1], w[i][2])) = TRUE
  /\ heap' = [heap EXCEPT ![o].d = FoldLeft(LAMBDA d, x : [d EXCEPT ![Idx(heap[o], x[1], x[2])] = x[3]], @, w)]
Clear(o)          == heap' = [heap EXCEPT ![o].d = Zeros(heap[o].r * heap[o].c)]
ReSize(o, n)      ==
  /\ heap[o].k \in {"dv", "dvn"} /\ n >= 0
  /\ heap' = [heap EXCEPT ![o] = Mat(@.k, n, 1, [i \in 1 .. n |-> IF i <= Len(@.d) THEN @.d[i] ELSE 0])]
Read(o)           == UNCHANGED heap

(* The elements an iteration has to visit: every stored cell once, which are the
   non-zero cells of a sparse format and all cells of a dense one. *)
VisitsOK(o, n, list) ==          \* list of <<row, column, value>>; n > 0: given up after n elements
  /\ \A i \in DOMAIN list : InRange(o, list[i][1], list[i][2])
                            /\ list[i][3] = Cell(o, list[i][1], list[i][2])
  /\ LET pos == [i \in DOMAIN list |-> Idx(o, list[i][1], list[i][2])]
         seen == {pos[i] : i \in DOMAIN list}
     IN /\ Cardinality(seen) = Len(list)
        /\ LET all == IF o.k \in SparseKinds THEN NonZero(o.d) ELSE DOMAIN o.d
           IN IF n = 0 \/ n > Cardinality(all) THEN seen = all ELSE seen \subseteq all /\ Cardinality(seen) = n

(* Mapping in place, all of the elements or the first n of them: calls is the list of <<row, column, value, result>> *)
Map(o, f, n, calls) ==
  /\ VisitsOK(heap[o], n, [i \in DOMAIN calls |-> <<calls[i][1], calls[i][2], calls[i][3]>>]) = TRUE
  /\ (\A i \in DOMAIN calls : calls[i][4] = Apply1(f, calls[i][3])) = TRUE
  /\ LET hit == {Idx(heap[o], calls[i][1], calls[i][2]) : i \in DOMAIN calls}
     IN heap' = [heap EXCEPT ![o].d = [k \in DOMAIN @ |-> IF k \in hit THEN Apply1(f, @[k]) ELSE @[k]]]

(* the function of the (n+1)th element panics: those before have been mapped *)
MapThrown(o, f, n, calls) ==
  /\ Len(calls) = n
  /\ n < Cardinality(IF heap[o].k \in SparseKinds THEN NonZero(heap[o].d) ELSE DOMAIN heap[o].d)
  /\ IF n = 0 THEN UNCHANGED heap ELSE Map(o, f, n, calls)

(* Views: what the derived read operations of an object have to show.
   A view is [ty, r, c, d, n, sz, sp, a, va]: concrete format, dimensions, cells,
   element count, size, whether reported sparse, cells by index (vectors) *)
CountOf(k, d) == IF k \in SparseKinds THEN Cardinality(NonZero(d)) ELSE Len(d)
ViewOK(v, r, c, d) ==
  /\ v.r = r /\ v.c = c /\ v.d = d
  /\ v.sz = r * c
  /\ v.va => v.a = d
  /\ v.ty \in Kinds => v.n = CountOf(v.ty, d) /\ (v.sp <=> v.ty \in SparseKinds)
ViewsOK(o, vs) ==
  /\ vs.self.ty = o.k /\ ViewOK(vs.self, o.r, o.c, o.d)
  /\ Len(vs.rows) = o.r /\ \A i \in 1 .. o.r : ViewOK(vs.rows[i], o.c, 1, Row(o, i - 1))
  /\ Len(vs.cols) = o.c /\ \A i \in 1 .. o.c : ViewOK(vs.cols[i], o.r, 1, Column(o, i - 1))
  /\ vs.huge \/ (Len(vs.arrs) = o.r /\ \A i \in 1 .. o.r : vs.arrs[i] = Row(o, i - 1))  \* not taken of rows of millions
  /\ vs.raw # <<>> => Len(vs.raw) = o.r /\ \A i \in 1 .. o.r : vs.raw[i] = Row(o, i - 1)
  /\ vs.elem # <<>> => vs.elem = [i \in DOMAIN o.d |-> o.d[i] # 0]     \* as a mask
  /\ Len(vs.copies) > 0 /\ \A i \in DOMAIN vs.copies : ViewOK(vs.copies[i], o.r, o.c, o.d)
=============================================================================
