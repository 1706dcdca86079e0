----------------------------- MODULE Directory -----------------------------
(***************************************************************************)
(* A UnixFS directory: a map from names to nodes, kept in a single node    *)
(* ("basic") or in a HAMT ("hamt").                                        *)
(*                                                                         *)
(* Names and nodes are numbers; nlen[n] is the length of a name, clen[x]   *)
(* that of the CID of a node, h[n] the bits of the hash of a name.  T is   *)
(* the sharding threshold (0: off) and lg the (logarithm of the) width of  *)
(* new shards.                                                             *)
(*                                                                         *)
(* A directory is [ents: name -> node or 0, kind, lg: width of its shards, *)
(* net: change of the size by edits through this handle, while sharded].   *)
(***************************************************************************)
EXTENDS Hamt

ESize(nlen, clen, n, x) == IF x = 0 THEN 0 ELSE nlen[n] + clen[x]

Size(d, nlen, clen) ==
  FoldLeft(LAMBDA a, n : a + ESize(nlen, clen, n, d.ents[n]), 0, [i \in 1..Len(d.ents) |-> i])

Names(d) == {n \in 1..Len(d.ents) : d.ents[n] # 0}

Empty(nn) == [ents |-> [i \in 1..nn |-> 0], kind |-> "basic", lg |-> 0, net |-> 0]

Change(d, n, x, nlen, clen) == ESize(nlen, clen, n, x) - ESize(nlen, clen, n, d.ents[n])

(* A single node is given up when an addition makes the size reach the      *)
(* threshold, and by nothing else.                                          *)
GrowsOut(d, n, x, T, nlen, clen) ==
  /\ d.kind = "basic" /\ T > 0 /\ x # 0
  /\ Size(d, nlen, clen) + Change(d, n, x, nlen, clen) >= T

(* A HAMT is given up when the edits have made the directory smaller than   *)
(* it was, and it is really below the threshold.                            *)
Shrinks(d, n, x, T, nlen, clen) ==
  /\ d.kind = "hamt" /\ T > 0
  /\ d.net + Change(d, n, x, nlen, clen) < 0
  /\ Size(d, nlen, clen) + Change(d, n, x, nlen, clen) < T

(* The directory after n -> x (x = 0: removed) is done.                     *)
Set(d, n, x, T, lg, nlen, clen) ==
  LET c == Change(d, n, x, nlen, clen) IN
  CASE GrowsOut(d, n, x, T, nlen, clen) ->
         [ents |-> [d.ents EXCEPT ![n] = x], kind |-> "hamt", lg |-> lg, net |-> c]
    [] Shrinks(d, n, x, T, nlen, clen) ->
         [ents |-> [d.ents EXCEPT ![n] = x], kind |-> "basic", lg |-> 0, net |-> 0]
    [] OTHER ->
         [d EXCEPT !.ents[n] = x, !.net = IF d.kind = "hamt" THEN @ + c ELSE 0]

(* Whether a HAMT can hold these names: they have to differ in the digits   *)
(* there are, and a link without a name stands for a sub-shard.  A lg of 0    *)
(* stands for a width no shard can have.                                     *)
CanShard(S, h, lg, nlen) ==
  /\ lg > 0
  /\ \A a \in S : nlen[a] > 0
  /\ \A a \in S : \A b \in S : a < b => Apart(h[a], h[b], lg)

\* An addition can't be done when its result can't be represented.
Refused(d, n, x, T, lg, nlen, clen, h) ==
  LET g == Set(d, n, x, T, lg, nlen, clen)
  IN  g.kind = "hamt" /\ x # 0 /\ ~CanShard(Names(d) \cup {n}, h, g.lg, nlen)

Reloaded(d) == [d EXCEPT !.net = 0]
=============================================================================
