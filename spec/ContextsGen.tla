---------------------------- MODULE ContextsGen ----------------------------
(* Histories of making and cancelling contexts, every one of them up to MaxLen. *)
EXTENDS Contexts, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES tree, err, hist
Node(k, u, m, key, v, d) == [kind |-> k, up |-> u, mode |-> m, key |-> key, val |-> v, dl |-> d]
Make(n) == /\ tree' = Append(tree, n) /\ err' = Append(err, NewErr(tree, err, n)) /\ hist' = Append(hist, [op |-> "make", node |-> n, at |-> 0])
Cancel(i) == /\ tree[i].kind \in {"cancel", "deadline"} /\ err' = Cancelled(tree, err, i) /\ UNCHANGED tree /\ hist' = Append(hist, [op |-> "cancel", node |-> tree[i], at |-> i])
Init == tree = <<Node("bg", 0, 0, 0, 0, 0)>> /\ err = <<0>> /\ hist = <<>>
Lib == \E i \in DOMAIN tree, m \in {0, 1} : Make(Node("lib", i, m, 0, 0, 0))
Std == \E i \in DOMAIN tree :
          \/ Make(Node("cancel", i, 0, 0, 0, 0))
          \/ \E k \in {1, 2} : Make(Node("value", i, 0, k, Len(hist) + 1, 0))
          \/ \E d \in {1, 2} : Make(Node("deadline", i, 0, 0, 0, d))
Step == Len(hist) < MaxLen /\ (Lib \/ Std \/ \E i \in DOMAIN tree : Cancel(i))
Interesting == \E i \in DOMAIN tree : tree[i].kind = "lib"
Out == /\ Emit /\ Len(hist) = MaxLen /\ Interesting /\ PrintT("GEN " \o ToJson([ctx |-> hist])) /\ UNCHANGED <<tree, err, hist>>
Stay == (Len(hist) = MaxLen) /\ UNCHANGED <<tree, err, hist>>
Next == Step \/ Out \/ Stay
(* a library context has the state, deadline and values of the one it was made from *)
Carries == \A i \in DOMAIN tree : tree[i].kind = "lib" =>
   /\ err[i] = err[tree[i].up] /\ DeadlineOf(tree, i) = DeadlineOf(tree, tree[i].up)
   /\ \A k \in Keys : ValueOf(tree, i, k) = ValueOf(tree, tree[i].up, k)
Inherits == \A i \in DOMAIN tree : tree[i].up # 0 /\ err[tree[i].up] # 0 => err[i] # 0
=============================================================================
