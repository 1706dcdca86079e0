------------------------------ MODULE StoreLog ------------------------------
(***************************************************************************)
(* A block store as it grows while files and sharded directories are       *)
(* written: a function from the blocks in it to their children, i.e. the   *)
(* blocks that belong to the same file or shard.                           *)
(*                                                                         *)
(* A crash leaves what is in the store at some instant.  That is never a   *)
(* block without its children, and a root that was handed out with success *)
(* stands for a DAG that is there as a whole.                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Empty == <<>>
Has(st, b) == b \in DOMAIN st
With(st, b, kids) == (b :> kids) @@ st
Without(st, b) == [x \in DOMAIN st \ {b} |-> st[x]]

\* A block can be stored: what it links to was stored before.
CanPut(st, kids) == kids \subseteq DOMAIN st

\* The blocks reachable from those in F, and are they all in the store?
RECURSIVE Whole(_, _, _)
Whole(st, front, seen) ==
  IF front = {} THEN TRUE
  ELSE /\ front \subseteq DOMAIN st
       /\ LET s == seen \cup front
              next == UNION {st[b] : b \in front}
          IN  Whole(st, next \ s, s)
=============================================================================
