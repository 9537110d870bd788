-------------------------------- MODULE BFS --------------------------------
(* C14: breadth-first search as products with a frontier vector under the mask of
   visited vertices, against the definition in Graphs.  The predicate is free: it
   may accept any level. *)
EXTENDS Graphs, TLC, Json
CONSTANTS N, Weights, Loops,
          MaskAll,    \* every visited vertex is masked (FALSE: only the last frontier)
          Clears,     \* the result is cleared between levels
          Emit
VARIABLES g, s, d, frontier, visited, result, seen, pc
vars == <<g, s, d, frontier, visited, result, seen, pc>>

Graphs == {x \in [k : {"g"}, r : {N}, c : {N}, d : [1 .. N * N -> Weights]] : Loops \/ \A i \in 1 .. N : x.d[(i - 1) * N + i] = 0}
Unit(v) == [i \in 1 .. N |-> IF i = v THEN 1 ELSE 0]
Init == /\ g \in Graphs /\ s \in 1 .. N
        /\ d = 0 /\ frontier = Unit(s) /\ visited = Unit(s) /\ result = Zeros(N) /\ seen = <<>> /\ pc = "level"
        /\ Emit => PrintT("GEN " \o ToJson([n |-> N, g |-> g.d, s |-> s - 1]))
Level == /\ pc = "level" /\ d < N /\ d' = d + 1
         /\ result' = [v \in 1 .. N |-> IF (IF MaskAll THEN visited ELSE frontier)[v] # 0 THEN result[v]
                                        ELSE FoldLeft(LAMBDA x, u : x + W(g, v, u) * frontier[u], 0, [u \in 1 .. N |-> u])]
         /\ seen' = Append(seen, result')
         /\ pc' = "ask" /\ UNCHANGED <<g, s, frontier, visited>>
Accept == pc = "ask" /\ pc' = "done" /\ UNCHANGED <<g, s, d, frontier, visited, result, seen>>
Refuse == /\ pc = "ask" /\ pc' = "level"
          /\ visited' = [v \in 1 .. N |-> IF result[v] # 0 THEN result[v] ELSE visited[v]]
          /\ frontier' = result
          /\ result' = IF Clears THEN Zeros(N) ELSE result
          /\ UNCHANGED <<g, s, d, seen>>
GiveUp == pc = "level" /\ d = N /\ pc' = "none" /\ UNCHANGED <<g, s, d, frontier, visited, result, seen>>
Next == ~Emit /\ (Level \/ Accept \/ Refuse \/ GiveUp \/ (pc \in {"done", "none"} /\ UNCHANGED vars))

Exact == \A k \in DOMAIN seen : seen[k] = Counts(g, s)[k + 1]
Returned == /\ pc = "done" => result = seen[Len(seen)]
            /\ pc = "none" => result = Zeros(N)
Once == \A j, k \in DOMAIN seen : j # k => \A v \in 1 .. N : seen[j][v] = 0 \/ seen[k][v] = 0
(* the two definitions agree *)
Agree == pc = "level" /\ d = 0 => \A k \in 1 .. N : \A v \in 1 .. N : Counts(g, s)[k + 1][v] = CountByPaths(g, s, k, v)
=============================================================================
