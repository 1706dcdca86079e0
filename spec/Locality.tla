------------------------------ MODULE Locality ------------------------------
(***************************************************************************)
(* Which blocks an operation fetches: those it needs and, when reading, a  *)
(* few that come next.  A seek into a big file doesn't read the file, a    *)
(* lookup in a big directory doesn't load the directory.                   *)
(*                                                                         *)
(* A file is a sequence N of the nodes of its tree: N[k] = <<parent, index *)
(* in the parent, lo, hi>>, with the content of the node being the bytes   *)
(* lo..hi-1 of the file.  N[1] is the root.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* How many of the next children of a node may be requested ahead of their use.
CONSTANT Ahead

P(N, k) == N[k][1]
I(N, k) == N[k][2]
Lo(N, k) == N[k][3]
Hi(N, k) == N[k][4]
Size(N) == Hi(N, 1)
Least(a, b) == IF a < b THEN a ELSE b

\* The nodes that bytes a..b-1 are in, or that position is at the edge of.
Touch(N, a, b) == {k \in 2..Len(N) : Lo(N, k) <= b /\ a <= Hi(N, k)}
Over(N, a, b)  == {k \in 2..Len(N) : Lo(N, k) < b /\ a < Hi(N, k)}

\* What reading those bytes may fetch.
Reading(N, a0, b0) ==
  LET a == Least(a0, Size(N))
      b == Least(b0, Size(N))
      T == Touch(N, a, b)
      Ps == {P(N, k) : k \in T}
      Span == [p \in Ps |->
                LET J == {I(N, k) : k \in {x \in T : P(N, x) = p}}
                IN <<CHOOSE i \in J : \A j \in J : i <= j, CHOOSE i \in J : \A j \in J : j <= i>>]
  IN {k \in 2..Len(N) : P(N, k) \in Ps /\ Span[P(N, k)][1] <= I(N, k) /\ I(N, k) <= Span[P(N, k)][2] + Ahead}

\* The way to the end of the file, where it grows.
Spine(N) == Touch(N, Size(N), Size(N))

\* Overwriting bytes a..b-1.
Writing(N, a, b) == {1} \cup Over(N, a, b) \cup (IF b > Size(N) THEN Spine(N) ELSE {})

\* Cutting the file at a.
Cutting(N, a) ==
  IF a >= Size(N) THEN {1} \cup Spine(N)
  ELSE LET T == {1} \cup Touch(N, a, a)
       IN {1} \cup {k \in 2..Len(N) : P(N, k) \in T /\ Lo(N, k) <= a}

\* What an operation may fetch: e.off, e.k are where and how much.
Needs(N, meta, e) ==
  CASE e.op = "open" -> IF meta THEN {2} ELSE {}
    [] e.op \in {"size", "late"} -> {}
    [] e.op = "seek" -> Reading(N, e.off, e.off)
    [] e.op = "seekmod" -> Reading(N, e.off, e.off)
    [] e.op \in {"read", "readmod"} -> Reading(N, e.off, e.off + e.k)
    [] e.op = "write" -> Writing(N, e.off, e.off + e.k)
    [] e.op = "truncate" -> Cutting(N, e.off)

-----------------------------------------------------------------------------
(* Directories: shards is the sequence of the places of the shards (the    *)
(* digits on the way to them), of which the first is the root.             *)

\* What an operation may fetch of the shards, at most once each.
OnTheWay(shards, digits) == {k \in 1..Len(shards) : IsPrefix(shards[k], digits)}
Shards(shards, digits, op) ==
  CASE op \in {"open", "node"} -> {}
    [] op \in {"find", "add", "remove", "resolve"} -> OnTheWay(shards, digits)
    [] op \in {"links", "each", "enum", "view"} -> 1..Len(shards)

\* Entries are only fetched when they are asked for.
Entries(vals, op) == IF op \in {"find", "resolve", "view"} THEN ToSet(vals) ELSE {}
Times(vals, op, x) == IF op = "view" THEN Cardinality({i \in 1..Len(vals) : vals[i] = x}) ELSE 1
=============================================================================
