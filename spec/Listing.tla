------------------------------ MODULE Listing ------------------------------
(***************************************************************************)
(* What the listing of a directory is for its caller: the sequence of what *)
(* was delivered, errors, and an end.                                      *)
(*                                                                         *)
(* S: the entries there are; list: those delivered; errs: how many errors; *)
(* cancelled: the context was, by the time the listing ended; trouble:     *)
(* something was really wrong with a shard.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* Nothing twice, and nothing that isn't there.
Once(list, S) == Len(list) = Cardinality(ToSet(list)) /\ ToSet(list) \subseteq S

Complete(list, S) == ToSet(list) = S

\* An end without any sign that something is missing.
Clean(errs, cancelled) == errs = 0 /\ ~cancelled

ListingOK(list, S, errs, cancelled, trouble) ==
  /\ Once(list, S)
  /\ Clean(errs, cancelled) => Complete(list, S)
  /\ errs > 0 => trouble \/ cancelled
=============================================================================
