------------------------------- MODULE Graphs -------------------------------
(* Shortest distances and weighted path counts of a directed graph, by
   definition.  The graph is a matrix: entry r, c is the weight of an edge from c
   to r, zero for none.  Vertices are 1 .. n here. *)
EXTENDS Values

W(g, to, from) == g.d[(to - 1) * g.c + from]

(* vertices first reached after exactly k edges, by the sets of walks *)
RECURSIVE Walk(_, _, _)
Walk(g, s, k) == IF k = 0 THEN {s} ELSE LET w == Walk(g, s, k - 1) IN {v \in 1 .. g.r : \E u \in w : W(g, v, u) # 0}
(* layers as a sequence: layer k + 1 holds the vertices at distance k *)
Layers(g, s) ==
  LET Step(st, k) == LET new == {v \in 1 .. g.r \ st.seen : \E u \in st.cur : W(g, v, u) # 0}
                     IN [cur |-> new, seen |-> st.seen \cup new, out |-> Append(st.out, new)]
  IN FoldLeft(Step, [cur |-> {s}, seen |-> {s}, out |-> <<{s}>>], [k \in 1 .. g.r |-> k]).out
(* number of shortest paths, each counted with the product of its weights, layer by layer *)
Counts(g, s) ==
  LET lay == Layers(g, s)
      Step(acc, k) == LET prev == acc[Len(acc)]
                      IN Append(acc, [v \in 1 .. g.r |->
                           IF v \in lay[k + 1] THEN FoldLeft(LAMBDA x, u : x + W(g, v, u) * prev[u], 0, [u \in 1 .. g.c |-> u]) ELSE 0])
  IN FoldLeft(Step, <<[v \in 1 .. g.r |-> IF v = s THEN 1 ELSE 0]>>, [k \in 1 .. g.r |-> k])
(* the same by enumerating every path *)
Paths(g, s, k) == [1 .. k -> 1 .. g.r]
PathWeight(g, s, p) == FoldLeft(LAMBDA x, i : x * W(g, p[i], IF i = 1 THEN s ELSE p[i - 1]), 1, [i \in 1 .. Len(p) |-> i])
RECURSIVE SumPaths(_, _, _)
SumPaths(g, s, ps) == IF ps = {} THEN 0 ELSE LET p == CHOOSE x \in ps : TRUE IN PathWeight(g, s, p) + SumPaths(g, s, ps \ {p})
DistOK(g, s, v, k) == v \in Walk(g, s, k) /\ \A j \in 0 .. k - 1 : v \notin Walk(g, s, j)
CountByPaths(g, s, k, v) == IF DistOK(g, s, v, k) THEN SumPaths(g, s, {p \in Paths(g, s, k) : p[k] = v}) ELSE 0
=============================================================================
