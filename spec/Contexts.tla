------------------------------ MODULE Contexts ------------------------------
(* A tree of contexts, the library's among them: what each one has to report.
   A context is [kind, up, mode, key, val, dl]; up is the position of its parent.
   kinds: "bg", "cancel", "value", "deadline" (dl: 1 past, 2 and 3 far away), "lib". *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Up(_, _)
Up(t, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Up(t, t[i].up)      \* the node and its ancestors, nearest first

(* 0 not done, 1 cancelled, 2 deadline exceeded; a context derived from one that is done is done the same way.
   over: position of a cancelled node -> the state it ended in *)
Sel(q, Test(_)) == LET k == {i \in DOMAIN q : Test(q[i])} IN IF k = {} THEN 0 ELSE q[CHOOSE i \in k : \A j \in k : i <= j]
ModeOf(t, i) == IF t[i].kind = "lib" THEN <<t[i].mode, TRUE>> ELSE <<0, FALSE>>
LibAbove(t, i) == Sel(Up(t, i), LAMBDA n : t[n].kind = "lib")
ValueOf(t, i, key) == LET n == Sel(Up(t, i), LAMBDA x : t[x].kind = "value" /\ t[x].key = key) IN IF n = 0 THEN 0 ELSE t[n].val
Deadlines(t, i) == {t[n].dl : n \in {x \in {Up(t, i)[k] : k \in DOMAIN Up(t, i)} : t[x].kind = "deadline"}}
DeadlineOf(t, i) == IF Deadlines(t, i) = {} THEN 0 ELSE CHOOSE d \in Deadlines(t, i) : \A x \in Deadlines(t, i) : d <= x

(* state of every context: err, as recorded when it ended *)
NewErr(t, err, node) == IF node.up # 0 /\ err[node.up] # 0 THEN err[node.up] ELSE IF node.kind = "deadline" /\ node.dl = 1 THEN 2 ELSE 0
Cancelled(t, err, i) == [j \in DOMAIN t |-> IF err[j] = 0 /\ i \in {Up(t, j)[k] : k \in DOMAIN Up(t, j)} THEN 1 ELSE err[j]]

(* what the library's context may report as mode *)
ModeOK(t, i, got) ==
  IF t[i].kind = "lib" THEN got = ModeOf(t, i)
  ELSE \/ got = <<0, FALSE>>
       \/ LibAbove(t, i) # 0 /\ got = <<t[LibAbove(t, i)].mode, TRUE>>
Keys == {1, 2}
ReportOK(t, err, i, rep) ==
  /\ rep.err = err[i] /\ rep.done = (err[i] # 0)
  /\ ModeOK(t, i, <<rep.mode, rep.ok>>)
  /\ t[i].kind = "lib" => rep.imode = t[i].mode
  /\ rep.dl = DeadlineOf(t, i)
  /\ \A k \in Keys : rep.vals[k] = ValueOf(t, i, k)
=============================================================================
