------------------------------ MODULE FileTree ------------------------------
(***************************************************************************)
(* File DAGs as trees, as the specification sees them.  A tree is a record *)
(*   k   "raw" (raw leaf), "leaf" (dag-pb node without links) or "node"    *)
(*   t   type written in the unixfs data ("none" for raw leaves)           *)
(*   fs  recorded file size       dl  length of the data kept in the node  *)
(*   bs  recorded block sizes     ts  recorded cumulative sizes of links   *)
(*   c   children                 enc length of the encoded block          *)
(*   p   CID prefix <<version, hash function, codec>>                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

IsLeaf(t) == t.k \in {"raw", "leaf"}

RECURSIVE WellFormed(_)
\* Every block is there and can be decoded.
WellFormed(t) == /\ t.k \in {"raw", "leaf", "node"}
                 /\ \A i \in 1..Len(t.c) : WellFormed(t.c[i])

RECURSIVE Bytes(_)
\* Bytes of the file a tree stands for.
Bytes(t) == IF IsLeaf(t) THEN t.dl
            ELSE Sum([i \in 1..Len(t.c) |-> Bytes(t.c[i])])

RECURSIVE Cumulative(_)
\* Size of all the blocks, counting repeated ones each time.
Cumulative(t) == t.enc + Sum([i \in 1..Len(t.c) |-> Cumulative(t.c[i])])

RECURSIVE LeafSizes(_)
LeafSizes(t) ==
  IF IsLeaf(t) THEN <<t.dl>>
  ELSE LET RECURSIVE Cat(_)
           Cat(i) == IF i > Len(t.c) THEN <<>> ELSE LeafSizes(t.c[i]) \o Cat(i+1)
       IN  Cat(1)

(* Recorded sizes agree with the content, everywhere in the tree (C07). *)
RECURSIVE SizesOK(_)
SizesOK(t) ==
  CASE t.k = "raw"  -> TRUE
    [] t.k = "leaf" -> t.fs = t.dl /\ t.bs = <<>>
    [] t.k = "node" -> /\ Len(t.bs) = Len(t.c) /\ Len(t.ts) = Len(t.c)
                       /\ \A i \in 1..Len(t.c) :
                            /\ t.bs[i] = Bytes(t.c[i])
                            /\ t.ts[i] = Cumulative(t.c[i])
                            /\ SizesOK(t.c[i])
                       /\ t.dl = 0
                       /\ t.fs = Sum(t.bs)
    [] OTHER -> FALSE

(* CID and leaf settings of a tree (C20). *)
DagPB == 112
RawC  == 85
RECURSIVE PrefixOK(_, _, _)
PrefixOK(t, ver, mh) ==
  /\ t.p = IF t.k = "raw" THEN <<1, mh, RawC>> ELSE <<ver, mh, DagPB>>
  /\ \A i \in 1..Len(t.c) : PrefixOK(t.c[i], ver, mh)

\* When what is appended has other settings than what was there: the settings
\* of every block are the ones or the others, and leaves from byte low on have
\* the new ones.
ProperPrefix(t, w) == t.p = IF t.k = "raw" THEN <<1, w[2], RawC>> ELSE <<w[1], w[2], DagPB>>
RECURSIVE MixedPrefixOK(_, _, _, _, _)
MixedPrefixOK(t, old, new, low, off) ==
  /\ IF ProperPrefix(t, new) THEN TRUE
     ELSE ProperPrefix(t, old) /\ ~(IsLeaf(t) /\ t.dl > 0 /\ off >= low)
  /\ \A i \in 1..Len(t.c) :
       MixedPrefixOK(t.c[i], old, new, low, off + Sum([j \in 1..(i-1) |-> Bytes(t.c[j])]))

RECURSIVE LeavesAre(_, _)
LeavesAre(t, raw) == IF IsLeaf(t) THEN (t.k = "raw") = raw
                     ELSE \A i \in 1..Len(t.c) : LeavesAre(t.c[i], raw)

(* Shape of a tree: children and leaf sizes only. *)
RECURSIVE Shape(_)
Shape(t) == IF IsLeaf(t) THEN [n |-> t.dl, c |-> <<>>, leaf |-> TRUE]
            ELSE [n |-> Bytes(t), c |-> [i \in 1..Len(t.c) |-> Shape(t.c[i])], leaf |-> FALSE]

RECURSIVE Types(_)
Types(t) == {<<t.k, t.t>>} \cup UNION {Types(t.c[i]) : i \in 1..Len(t.c)}
=============================================================================
