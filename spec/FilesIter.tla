------------------------------ MODULE FilesIter ------------------------------
(***************************************************************************)
(* How the iterator of a directory in the files view works: a producer     *)
(* walks the directory and puts its links in a buffer, then leaves what    *)
(* the walk ended with in another one and closes both; the consumer takes  *)
(* from both, whichever is ready, and opens the object of each link.  The  *)
(* walk may fail at any point, so may opening an object, and the context   *)
(* may be cancelled at any time.                                           *)
(*                                                                         *)
(* Checked against FilesView.tla: each entry at most once, and all of them *)
(* if it ends without an error (C16).  A consumer that goes on gets to the *)
(* end, and the producer ends once its context is cancelled, also if there *)
(* is no consumer any more.                                                *)
(***************************************************************************)
EXTENDS FilesView, TLC

CONSTANTS N,        \* entries
          Room,     \* of the buffer of links
          Flaw

VARIABLES at,       \* entries produced
          how,      \* the producer: "walk", "put" (an entry is to be put), "res" (the result is to be left), "done"
          res,      \* what the walk ended with
          buf, bufClosed,
          errBuf, errClosed,
          files, errs,          \* whether the consumer still looks at them
          st,       \* the consumer: "user", "next", "open", "false", "gone"
          err, list,
          cancelled, trouble
vars == <<at, how, res, buf, bufClosed, errBuf, errClosed, files, errs, st, err, list, cancelled, trouble>>
prod == <<at, how, res, bufClosed, errClosed>>
consumer == <<files, errs, st, err, list>>

Init == /\ at = 0 /\ how = "walk" /\ res = "nil" /\ buf = <<>> /\ bufClosed = FALSE
        /\ errBuf = <<>> /\ errClosed = FALSE /\ files = TRUE /\ errs = TRUE
        /\ st = "user" /\ err = "nil" /\ list = <<>> /\ cancelled = FALSE /\ trouble = FALSE

(* The producer.                                                           *)
End(r) == how' = "res" /\ res' = r
Walk ==
  /\ how = "walk"
  /\ \/ at = N /\ End("nil") /\ UNCHANGED <<at, trouble>>
     \/ at < N /\ how' = "put" /\ at' = at + 1 /\ UNCHANGED <<res, trouble>>
     \/ at < N /\ ~cancelled /\ End("fetch") /\ trouble' = TRUE /\ UNCHANGED at
     \/ cancelled /\ End("ctx") /\ UNCHANGED <<at, trouble>>
  /\ UNCHANGED <<buf, bufClosed, errBuf, errClosed, consumer, cancelled>>
PutLink ==
  /\ how = "put"
  /\ \/ Len(buf) < Room /\ buf' = Append(buf, at) /\ how' = "walk" /\ UNCHANGED res
     \/ cancelled /\ Flaw # "deaf" /\ End(IF Flaw = "quiet" THEN "nil" ELSE "ctx") /\ UNCHANGED buf
  /\ UNCHANGED <<at, bufClosed, errBuf, errClosed, consumer, cancelled, trouble>>
Leave == \* the result, then both are closed: nobody can tell these steps apart
  /\ how = "res" /\ how' = "done"
  /\ errBuf' = <<res>> /\ errClosed' = TRUE /\ bufClosed' = TRUE
  /\ UNCHANGED <<at, res, buf, consumer, cancelled, trouble>>

(* The consumer.                                                           *)
CallNext ==
  /\ st = "user" /\ st' = IF err # "nil" THEN "false" ELSE "next"
  /\ UNCHANGED <<prod, buf, errBuf, files, errs, err, list, cancelled, trouble>>
Take ==
  /\ st = "next"
  /\ \/ /\ ~files /\ (~errs \/ Flaw = "hasty") /\ st' = "false"
        /\ UNCHANGED <<buf, errBuf, files, errs, err, list>>
     \/ /\ files /\ buf # <<>> /\ st' = "open" /\ list' = Append(list, buf[1]) /\ buf' = Tail(buf)
        /\ UNCHANGED <<errBuf, files, errs, err>>
     \/ /\ files /\ buf = <<>> /\ bufClosed /\ files' = FALSE
        /\ UNCHANGED <<buf, errBuf, errs, st, err, list>>
     \/ /\ errs /\ errBuf # <<>>
        /\ errs' = FALSE /\ errBuf' = <<>>
        /\ err' = IF Flaw = "lost" THEN "nil" ELSE errBuf[1]
        /\ st' = IF errBuf[1] # "nil" THEN "false" ELSE st
        /\ UNCHANGED <<buf, files, list>>
  /\ UNCHANGED <<prod, cancelled, trouble>>
\* The entry that was taken is shown if it can be opened.
Open ==
  /\ st = "open"
  /\ \/ st' = "user" /\ UNCHANGED <<err, list, trouble>>
     \/ st' = "false" /\ err' = "open" /\ list' = Front(list) /\ trouble' = (trouble \/ ~cancelled)
  /\ UNCHANGED <<prod, buf, errBuf, files, errs, cancelled>>
Quit == st = "user" /\ st' = "gone" /\ UNCHANGED <<prod, buf, errBuf, files, errs, err, list, cancelled, trouble>>
Cancel == ~cancelled /\ cancelled' = TRUE /\ UNCHANGED <<prod, buf, errBuf, consumer, trouble>>

Next == Walk \/ PutLink \/ Leave \/ CallNext \/ Take \/ Open \/ Quit \/ Cancel
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Walk) /\ WF_vars(PutLink) /\ WF_vars(Leave) /\ WF_vars(CallNext) /\ WF_vars(Take) /\ WF_vars(Open)
        /\ WF_vars(st = "gone" /\ Cancel)

\* The directory as a tree of FilesView.tla: N files.
View == <<[k |-> "dir", ents |-> [i \in 1..N |-> <<i, i + 1>>]]>> \o [i \in 1..N |-> [k |-> "file", ents |-> <<>>]]
Shows == [i \in 1..Len(list) |-> Shown(View, <<list[i], list[i] + 1>>)]
Good == /\ Once(Shows, Entries(View, 1))
        /\ st = "false" => IterOK(View, 1, Shows, err, trouble \/ cancelled)
Ends == /\ <>(st \in {"false", "gone"})
        /\ <>(how = "done" \/ ~cancelled)
        /\ [](cancelled => <>(how = "done"))
=============================================================================
