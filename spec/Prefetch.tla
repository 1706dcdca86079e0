------------------------------ MODULE Prefetch ------------------------------
(***************************************************************************)
(* How a reader waits for the blocks of a file.  Operations follow one     *)
(* another, each with a context of its own or with the reader's; a block   *)
(* is asked for with the context of the operation that first needs one     *)
(* nearby, ahead of time, so that an operation may find itself waiting for *)
(* a request made on behalf of an earlier one.  Blocks may never arrive,   *)
(* contexts end at any time.                                               *)
(*                                                                         *)
(* Checked: an operation fails only if its own context has ended, whoever  *)
(* asked for the blocks; it ends once its context has; when the reader's   *)
(* context has ended nothing is being asked for (C27, C06).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,      \* leaves
          Ahead,  \* how many are asked for at once
          Ops,    \* operations
          Flaw

Handle == 0       \* the reader's context; that of operation i is i, below it
Nobody == -1      \* a context that never ends

VARIABLES op, ctx, left,   \* operation under way (0: none so far), its context, what it still wants
          busy, pos, req, dead, out
vars == <<op, ctx, left, busy, pos, req, dead, out>>

Dead(c) == IF c = Nobody THEN FALSE ELSE c \in dead \/ Handle \in dead

None == [st |-> "none", c |-> Handle]
Init == /\ op = 0 /\ ctx = Handle /\ left = 0 /\ busy = FALSE /\ pos = 1
        /\ req = [k \in 1..N |-> None] /\ dead = {} /\ out = <<>>

\* The contexts that operations wait with, and requests are made with.
Waits == IF Flaw = "handle" THEN Handle ELSE ctx
Used == IF Flaw = "nobody" THEN Nobody ELSE Waits

Begin == /\ ~busy /\ op < Ops
         /\ op' = op + 1 /\ busy' = TRUE
         /\ \E own \in BOOLEAN : ctx' = IF own THEN op' ELSE Handle
         /\ left' \in 1..N
         /\ UNCHANGED <<pos, req, dead, out>>

Finish(how) == /\ busy' = FALSE
               /\ out' = Append(out, [how |-> how, dead |-> Dead(ctx), pos |-> pos])
               /\ UNCHANGED <<op, ctx, left, pos, dead>>

Ask(k, again) ==
  req' = [j \in 1..N |-> IF j >= k /\ j < k + Ahead /\ (again \/ req[j].st = "none")
                         THEN [st |-> "asked", c |-> Used] ELSE req[j]]

Done == busy /\ (left = 0 \/ pos > N) /\ Finish("ok") /\ UNCHANGED req
Want == busy /\ left > 0 /\ pos <= N
Request == /\ Want /\ req[pos].st = "none"
           /\ Ask(pos, FALSE)
           /\ UNCHANGED <<op, ctx, left, busy, pos, dead, out>>
Take == /\ Want /\ req[pos].st = "here"
        /\ pos' = pos + 1 /\ left' = left - 1
        /\ req' = [req EXCEPT ![pos] = None]
        /\ UNCHANGED <<op, ctx, busy, dead, out>>
\* The request was made for an operation whose context has ended.
Orphan == /\ Want /\ req[pos].st = "asked" /\ Dead(req[pos].c)
          /\ IF Dead(Waits) \/ Flaw = "poisoned" THEN Finish("failed") /\ req' = [req EXCEPT ![pos] = None]
             ELSE Ask(pos, TRUE) /\ UNCHANGED <<op, ctx, left, busy, pos, dead, out>>
Tired == /\ Want /\ req[pos].st = "asked" /\ Dead(Waits) /\ Flaw # "deaf"
         /\ Finish("failed") /\ req' = [req EXCEPT ![pos] = None]

\* The environment: blocks arrive, if at all, for those who still wait.
Arrive(k) == /\ req[k].st = "asked" /\ ~Dead(req[k].c)
             /\ req' = [req EXCEPT ![k].st = "here"]
             /\ UNCHANGED <<op, ctx, left, busy, pos, dead, out>>
End(c) == c \notin dead /\ dead' = dead \cup {c} /\ UNCHANGED <<op, ctx, left, busy, pos, req, out>>

Work == Done \/ Request \/ Take \/ Orphan \/ Tired
Next == Begin \/ Work \/ (\E k \in 1..N : Arrive(k)) \/ (\E c \in 0..op : End(c))
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

Good == /\ \A i \in 1..Len(out) : out[i].how = "failed" => out[i].dead
        /\ Handle \in dead => ~\E k \in 1..N : req[k].st = "asked" /\ ~Dead(req[k].c)
\* An operation ends once its context has.
Ends == (busy /\ Dead(ctx)) ~> ~busy
=============================================================================
