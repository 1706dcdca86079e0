------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The helper that layouts are built with: a source of chunks, which may   *)
(* fail at its end, and nodes under construction.                          *)
(*                                                                         *)
(* The source is what is left of it, [rest, fails].  A node is             *)
(* [t, data, kids], kids being a sequence of [id, size].                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* A source that has failed is never done.
IsDone(src) == src.rest = <<>> /\ ~src.fails

Took(src) == [src EXCEPT !.rest = IF @ = <<>> THEN @ ELSE Tail(@)]
NextErr(src) == IF src.rest = <<>> /\ src.fails THEN "source" ELSE "nil"
NextData(src) == IF src.rest = <<>> THEN <<>> ELSE Head(src.rest)

New(t) == [t |-> t, data |-> <<>>, kids |-> <<>>]
Put(nd, id, size) == [nd EXCEPT !.kids = Append(@, [id |-> id, size |-> size])]
Drop(nd, i) == [nd EXCEPT !.kids = RemoveAt(@, i)]

SizeOf(nd) == Len(nd.data) + FoldSeq(LAMBDA k, acc : acc + k.size, 0, nd.kids)

\* A leaf with the data: its CID has the asked prefix (raw blocks need version 1).
IsLeaf(b, data, t, raw, v, mh) ==
  /\ b.data = data /\ b.links = <<>> /\ b.bs = <<>> /\ b.fs = Len(data)
  /\ b.mh = mh
  /\ IF raw THEN b.k = "raw" /\ b.v = 1
     ELSE b.k = "pb" /\ b.t = t /\ b.v = v

\* A block that says what the node says.
IsNode(b, nd, v, mh) ==
  /\ b.k = "pb" /\ b.t = nd.t /\ b.data = nd.data
  /\ b.links = [i \in 1..Len(nd.kids) |-> nd.kids[i].id]
  /\ b.bs    = [i \in 1..Len(nd.kids) |-> nd.kids[i].size]
  /\ b.fs = SizeOf(nd)
  /\ b.v = v /\ b.mh = mh

\* How many leaves a layer takes: until it is full, or nothing is left, or a
\* chunk is over the limit.
RECURSIVE Fits(_, _, _)
Fits(rest, room, limit) ==
  IF room <= 0 \/ rest = <<>> \/ Len(Head(rest)) > limit THEN 0
  ELSE 1 + Fits(Tail(rest), room - 1, limit)

\* and how that ends
FillErr(src, room, limit) ==
  LET k == Fits(src.rest, room, limit)
      left == SubSeq(src.rest, k + 1, Len(src.rest))
  IN  CASE room <= k     -> "nil"
        [] left # <<>>   -> "limit"
        [] src.fails     -> "source"
        [] OTHER         -> "nil"
=============================================================================
