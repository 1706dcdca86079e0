------------------------------ MODULE ShardWalk ------------------------------
(***************************************************************************)
(* How a sharded directory is listed: workers take lists of shards to      *)
(* look at (loaded ones and ones to be fetched), deliver the entries they  *)
(* find to the consumer, and hand the shards they find to a dispatcher     *)
(* which feeds them to the workers.  All the channels are rendezvous.      *)
(* Any fetch may fail, the consumer may be slow or give up, the context    *)
(* may be cancelled at any time.                                           *)
(*                                                                         *)
(* Checked against Listing.tla: nothing is delivered twice, a listing that *)
(* ends without an error and without having been cancelled is complete,    *)
(* there is an error only if something was wrong (C15).  It always ends,   *)
(* if the consumer goes on or the context is cancelled, and then nothing   *)
(* is left running.                                                        *)
(***************************************************************************)
EXTENDS Listing, TLC

CONSTANTS Workers, Tree, Flaw

\* A shard has entries, loaded sub-shards and links to others.
S(e, mem, lnk) == [e |-> e, mem |-> mem, lnk |-> lnk]
Trees == <<
  \* a single shard
  <<S({1, 2}, <<>>, {})>>,
  \* a root with loaded and stored sub-shards
  <<S({1}, <<2>>, {3}), S({2}, <<>>, {}), S({3}, <<>>, {})>>,
  \* deeper ones below both
  <<S({}, <<2>>, {3}), S({1}, <<>>, {4}), S({2}, <<>>, {5}), S({3}, <<>>, {}), S({4}, <<>>, {})>>,
  \* several at once
  <<S({}, <<>>, {2, 3, 4}), S({1}, <<>>, {}), S({2}, <<>>, {5}), S({3}, <<>>, {}), S({4}, <<>>, {})>> >>
T == Trees[Tree]
All == UNION {T[s].e : s \in DOMAIN T}
W == 1..Workers
Job(mem, lnk) == [mem |-> mem, lnk |-> lnk]

VARIABLES w,          \* workers: [pc, job, ents, cur]
          nxt, todo, inprog, disp,    \* the dispatcher
          seen,       \* links that were visited
          gerr,       \* first error of a worker: "none", "fetch" or "ctx"
          cancelled,
          cons,       \* the consumer: "takes" or "gone"
          list, errs, \* what was delivered
          pc          \* "walk", "emiterr", "closed"
vars == <<w, nxt, todo, inprog, disp, seen, gerr, cancelled, cons, list, errs, pc>>
disps == <<nxt, todo, inprog, disp>>
others == <<seen, gerr, cancelled, cons, list, errs, pc>>

Stopped == cancelled \/ gerr # "none"     \* the group's context is done

Idle == [pc |-> "idle", job |-> Job(<<>>, {}), ents |-> {}, cur |-> 0]
Init == /\ w = [i \in W |-> Idle]
        /\ nxt = <<Job(<<1>>, {})>> /\ todo = <<>> /\ inprog = 0 /\ disp = "loop"
        /\ seen = {} /\ gerr = "none" /\ cancelled = FALSE /\ cons = "takes"
        /\ list = <<>> /\ errs = 0 /\ pc = "walk"

Set(i, f) == w' = [w EXCEPT ![i] = f]

(* The dispatcher.                                                         *)
Feed(i) ==
  /\ disp = "loop" /\ nxt # <<>> /\ w[i].pc = "idle"
  /\ Set(i, [w[i] EXCEPT !.pc = "pick", !.job = nxt[1]])
  /\ inprog' = inprog + 1
  /\ IF todo # <<>> THEN nxt' = <<todo[1]>> /\ todo' = Tail(todo) ELSE nxt' = <<>> /\ UNCHANGED todo
  /\ UNCHANGED <<disp, others>>
TakeDone(i) ==
  /\ disp = "loop" /\ w[i].pc = "done"
  /\ Set(i, Idle)
  /\ inprog' = inprog - 1
  /\ disp' = IF inprog' = 0 /\ (nxt = <<>> \/ Flaw = "early") THEN "closed" ELSE disp
  /\ UNCHANGED <<nxt, todo, others>>
Found(i) == Job(T[w[i].cur].mem, T[w[i].cur].lnk)
TakeOut(i) ==
  /\ disp = "loop" /\ w[i].pc = "out"
  /\ Set(i, [w[i] EXCEPT !.pc = "pick"])
  /\ IF nxt = <<>> THEN nxt' = <<Found(i)>> /\ UNCHANGED todo ELSE todo' = Append(todo, Found(i)) /\ UNCHANGED nxt
  /\ UNCHANGED <<inprog, disp, others>>
StopDispatching == disp = "loop" /\ Stopped /\ disp' = "closed" /\ UNCHANGED <<w, nxt, todo, inprog, others>>

(* The workers.                                                            *)
Walk(i, s, job) == Set(i, [pc |-> "emit", job |-> job, ents |-> T[s].e, cur |-> s])
Fail(i, e) == /\ Set(i, [w[i] EXCEPT !.pc = "exit"])
              /\ gerr' = IF gerr = "none" /\ Flaw # "swallow" THEN e ELSE gerr
Pick(i) ==
  /\ w[i].pc = "pick"
  /\ LET j == w[i].job IN
     CASE j.mem # <<>> -> Walk(i, j.mem[1], [j EXCEPT !.mem = Tail(@)]) /\ UNCHANGED <<seen, gerr>>
       [] j.mem = <<>> /\ j.lnk \ seen # {} ->
            \E s \in j.lnk \ seen :      \* blocks arrive in any order
              \/ Walk(i, s, [j EXCEPT !.lnk = @ \ {s}]) /\ seen' = seen \cup {s} /\ UNCHANGED gerr
              \/ Fail(i, "fetch") /\ UNCHANGED seen
              \/ Stopped /\ Fail(i, "ctx") /\ UNCHANGED seen
       [] OTHER -> Set(i, [w[i] EXCEPT !.pc = "done"]) /\ UNCHANGED <<seen, gerr>>
  /\ UNCHANGED <<disps, cancelled, cons, list, errs, pc>>
\* Entries are delivered one by one; if the context is cancelled they're not.
Emit(i) ==
  /\ w[i].pc = "emit"
  /\ IF w[i].ents = {} THEN Set(i, [w[i] EXCEPT !.pc = "out"]) /\ UNCHANGED list
     ELSE \E x \in w[i].ents :
       /\ Set(i, [w[i] EXCEPT !.ents = @ \ {x}])
       /\ \/ cons = "takes" /\ list' = Append(list, x)
          \/ cancelled /\ Flaw # "deaf" /\ UNCHANGED list
  /\ UNCHANGED <<disps, seen, gerr, cancelled, cons, errs, pc>>
GiveUp(i) ==
  /\ Stopped
  /\ \/ w[i].pc = "out" /\ Flaw # "stuck" /\ Set(i, [w[i] EXCEPT !.pc = "exit"])
     \/ w[i].pc = "done" /\ Set(i, Idle)
  /\ UNCHANGED <<disps, others>>
NoMore(i) == w[i].pc = "idle" /\ disp = "closed" /\ Set(i, [w[i] EXCEPT !.pc = "exit"]) /\ UNCHANGED <<disps, others>>

(* Who started it all waits for the workers, and reports the first error.  *)
Exited == disp = "closed" /\ \A i \in W : w[i].pc = "exit"
Collect == /\ pc = "walk" /\ Exited
           /\ pc' = IF gerr # "none" THEN "emiterr" ELSE "closed"
           /\ UNCHANGED <<w, disps, seen, gerr, cancelled, cons, list, errs>>
EmitErr == /\ pc = "emiterr" /\ pc' = "closed"
           /\ \/ cons = "takes" /\ errs' = errs + 1
              \/ cancelled /\ UNCHANGED errs
           /\ UNCHANGED <<w, disps, seen, gerr, cancelled, cons, list>>

(* The environment.                                                        *)
Cancel == ~cancelled /\ pc # "closed" /\ cancelled' = TRUE /\ UNCHANGED <<w, disps, seen, gerr, cons, list, errs, pc>>
Leave == cons = "takes" /\ pc # "closed" /\ cons' = "gone" /\ UNCHANGED <<w, disps, seen, gerr, cancelled, list, errs, pc>>

Internal(i) == Feed(i) \/ TakeDone(i) \/ TakeOut(i) \/ Pick(i) \/ Emit(i) \/ GiveUp(i) \/ NoMore(i)
Next == StopDispatching \/ Collect \/ EmitErr \/ Cancel \/ Leave \/ \E i \in W : Internal(i)
Fair == /\ WF_vars(StopDispatching) /\ WF_vars(Collect) /\ WF_vars(EmitErr)
        /\ \A i \in W : WF_vars(Internal(i))
        \* who gives up cancels the context
        /\ WF_vars(cons = "gone" /\ Cancel)
Spec == Init /\ [][Next]_vars /\ Fair

Good == /\ Once(list, All)
        /\ pc = "closed" => ListingOK(list, All, errs, cancelled, gerr = "fetch" \/ cancelled)
Ends == <>[](pc = "closed" /\ \A i \in W : w[i].pc = "exit")
=============================================================================
