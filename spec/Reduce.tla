------------------------------ MODULE Reduce ------------------------------
(* The reduction protocol: a producer sends elements over the stream and then
   signals completion, a reducer folds what it receives and delivers the result,
   the caller waits for it.  Every interleaving, every capacity of the stream's
   buffer, both ways of signalling completion, an optional close of the stream
   before that, and cancellation of the producer at any point.

   The fold is over the free monoid (concatenation), so that order and
   multiplicity of what was folded show in the result.  0 is the zero value that
   receiving from a closed channel gives; it is never sent by the model. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Vals, MaxLen, Caps, CanCancel, CanClose,
          Drain,        \* values left in the buffer are folded after completion was signalled
          CommaOk,      \* a closed stream is told apart from a zero value
          AckOnCancel,  \* a cancelled producer still signals completion
          Reuse,        \* the fold starts from the unit (FALSE: from the last result)
          Emit
VARIABLES cap, input, sent, buf, sclosed, dclosed, acc, rpc, ppc, mpc, got, cancelled, how, round, open
vars == <<cap, input, sent, buf, sclosed, dclosed, acc, rpc, ppc, mpc, got, cancelled, how, round, open>>

SeqsUpTo(n) == UNION {[1 .. k -> Vals] : k \in 0 .. n}
Init == /\ cap \in Caps /\ input \in SeqsUpTo(MaxLen) /\ how \in {"send", "close"}
        /\ sent = <<>> /\ buf = <<>> /\ sclosed = FALSE /\ dclosed = FALSE /\ acc = <<>>
        /\ rpc = "loop" /\ ppc = "send" /\ mpc = "wait" /\ got = <<>> /\ cancelled = FALSE /\ round = 1 /\ open = TRUE

(* producer *)
Put == /\ ppc = "send" /\ input # <<>>
       /\ cap > 0 /\ Len(buf) < cap /\ buf' = Append(buf, Head(input))
       /\ sent' = Append(sent, Head(input)) /\ input' = Tail(input)
       /\ UNCHANGED <<cap, sclosed, dclosed, acc, rpc, ppc, mpc, got, cancelled, how, round, open>>
(* without a buffer sending and receiving are one step *)
Hand == /\ ppc = "send" /\ input # <<>> /\ cap = 0 /\ rpc = "loop" /\ open
        /\ acc' = Append(acc, Head(input))
        /\ sent' = Append(sent, Head(input)) /\ input' = Tail(input)
        /\ UNCHANGED <<cap, buf, sclosed, dclosed, rpc, ppc, mpc, got, cancelled, how, round, open>>
Cancel == /\ CanCancel /\ ppc = "send" /\ ~cancelled /\ cancelled' = TRUE
          /\ ppc' = IF AckOnCancel THEN "done" ELSE "end"
          /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, acc, rpc, mpc, got, how, round, open>>
AllSent == /\ ppc = "send" /\ input = <<>> /\ ppc' = "done"
           /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, acc, rpc, mpc, got, cancelled, how, round, open>>
CloseStream == /\ CanClose /\ ppc = "done" /\ ~sclosed /\ sclosed' = TRUE
               /\ UNCHANGED <<cap, input, sent, buf, dclosed, acc, rpc, ppc, mpc, got, cancelled, how, round, open>>
CloseDone == /\ ppc = "done" /\ how = "close" /\ dclosed' = TRUE /\ ppc' = "end"
             /\ UNCHANGED <<cap, input, sent, buf, sclosed, acc, rpc, mpc, got, cancelled, how, round, open>>
SendDone == /\ ppc = "done" /\ how = "send" /\ rpc = "loop" /\ ppc' = "end" /\ rpc' = "drain"
            /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, acc, mpc, got, cancelled, how, round, open>>

(* reducer *)
Take == /\ rpc = "loop" /\ open /\ buf # <<>> /\ acc' = Append(acc, Head(buf)) /\ buf' = Tail(buf)
        /\ UNCHANGED <<cap, input, sent, sclosed, dclosed, rpc, ppc, mpc, got, cancelled, how, round, open>>
TakeClosed == /\ rpc = "loop" /\ open /\ buf = <<>> /\ sclosed
              /\ IF CommaOk THEN open' = FALSE /\ UNCHANGED acc
                 ELSE acc' = (IF Len(acc) <= MaxLen THEN Append(acc, 0) ELSE acc) /\ UNCHANGED open
              /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, rpc, ppc, mpc, got, cancelled, how, round>>
SeeDone == /\ rpc = "loop" /\ dclosed /\ rpc' = "drain"
           /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, acc, ppc, mpc, got, cancelled, how, round, open>>
DrainOne == /\ rpc = "drain" /\ Drain /\ open /\ buf # <<>> /\ acc' = Append(acc, Head(buf)) /\ buf' = Tail(buf)
            /\ UNCHANGED <<cap, input, sent, sclosed, dclosed, rpc, ppc, mpc, got, cancelled, how, round, open>>
Drained == /\ rpc = "drain" /\ (~Drain \/ buf = <<>> \/ ~open) /\ rpc' = "out"
           /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, acc, ppc, mpc, got, cancelled, how, round, open>>

(* the result is handed to the caller; then the output is closed *)
Deliver == /\ rpc = "out" /\ mpc = "wait" /\ got' = Append(got, acc) /\ rpc' = "end" /\ mpc' = "again"
           /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, acc, ppc, cancelled, how, round, open>>
SeeClosed == /\ mpc = "again" /\ rpc = "end" /\ mpc' = "end"
             /\ UNCHANGED <<cap, input, sent, buf, sclosed, dclosed, acc, rpc, ppc, got, cancelled, how, round, open>>
(* the same monoid is used for a second reduction *)
Again == /\ rpc = "end" /\ mpc = "end" /\ ppc = "end" /\ round = 1 /\ round' = 2
         /\ input' \in SeqsUpTo(1) /\ sent' = <<>> /\ buf' = <<>> /\ sclosed' = FALSE /\ dclosed' = FALSE
         /\ acc' = (IF Reuse THEN <<>> ELSE acc) /\ rpc' = "loop" /\ ppc' = "send" /\ mpc' = "wait" /\ got' = <<>> /\ cancelled' = FALSE /\ open' = TRUE
         /\ UNCHANGED <<cap, how>>
Ended == round = 2 /\ rpc = "end" /\ mpc = "end" /\ ppc = "end" /\ UNCHANGED vars

Work == Put \/ Hand \/ AllSent \/ CloseDone \/ SendDone \/ Take \/ TakeClosed \/ SeeDone \/ DrainOne \/ Drained \/ Deliver \/ SeeClosed \/ Again
Next == Work \/ Cancel \/ CloseStream \/ Ended
(* the reducer's choice between stream and completion is fair: it is not kept on a closed stream forever *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Deliver) /\ SF_vars(SeeDone) /\ SF_vars(SendDone)

FoldsAll == got # <<>> => got = <<sent>>
NothingLeft == mpc = "end" /\ ppc = "end" => buf = <<>>
Delivered == <>(mpc = "end" /\ rpc = "end" /\ ppc = "end" /\ round = 2)

(* The histories of a caller that uses the stream directly, emitted for replay. *)
GenNext == /\ Emit /\ rpc = "end" /\ mpc = "end" /\ ppc = "end" /\ round = 1
           /\ PrintT("GEN " \o ToJson([cap |-> cap, vals |-> sent, how |-> how, closed |-> sclosed]))
           /\ UNCHANGED vars
GenSpec == Init /\ [][GenNext \/ Next]_vars
NotTwo == round = 1
=============================================================================
