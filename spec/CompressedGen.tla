---------------------------- MODULE CompressedGen ----------------------------
(* Emits every transition of the abstract contents as JSON, one line each:
   contents before, action, contents after.  Used to build the conformance
   programs that take the real formats through each of them. *)
EXTENDS Compressed, Json

SomeFns == {f \in Fns : \/ \A v \in Vals : f[v] = 0
                        \/ \A v \in Vals : f[v] = (v + 1) % Cardinality(Vals)
                        \/ \A v \in Vals : f[v] = (IF v = 1 THEN 0 ELSE IF v = 0 THEN 1 ELSE v)}
Tab(f) == [k \in 1 .. Cardinality(Vals) |-> f[k - 1]]
GenAct(a) ==
  CASE a[1] = "set" -> [op |-> "set", r |-> a[2], c |-> a[3], v |-> a[4]]
    [] a[1] = "upd" -> [op |-> "upd", r |-> a[2], c |-> a[3], f |-> Tab(a[4])]
    [] a[1] = "clear" -> [op |-> "clear"]
    [] OTHER -> [op |-> "map", f |-> Tab(a[2]), hn |-> 1]
(* a whole map at once: what the steps add up to *)
MapAll(f) == /\ ~it.on /\ act' = <<"map", f>> /\ it' = it
             /\ ref' = [k \in DOMAIN ref |-> IF ref[k] = 0 THEN 0 ELSE f[ref[k]]]
             /\ UNCHANGED <<values, idx, start>>
GenNext == \/ \E i \in Lines, j \in Minors, v \in Vals : Set(i, j, v)
           \/ \E i \in Lines, j \in Minors, f \in SomeFns : Update(i, j, f)
           \/ Clear
GenMap  == \E f \in SomeFns : MapAll(f)
(* maps are emitted but their successor is reached by sets as well, so it need not be explored *)
EmitAll == /\ PrintT("GEN " \o ToJson([pre |-> ref, act |-> GenAct(act'), post |-> ref']))
           /\ act'[1] # "map"
GenSpec == Init /\ [][GenNext \/ GenMap]_vars
GenView == ref
=============================================================================
