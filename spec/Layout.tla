------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The canonical layouts, as functions of the sequence of leaf sizes and   *)
(* of the maximum number of links m.  They are written from their          *)
(* definition (levels, capacities), not from the algorithms: the builders  *)
(* are modelled, and checked against this, in LayoutBuilder.tla.           *)
(***************************************************************************)
EXTENDS FileTree

Leaf(n)  == [n |-> n, c |-> <<>>, leaf |-> TRUE]
Node(cs) == [n |-> Sum([i \in 1..Len(cs) |-> cs[i].n]), c |-> cs, leaf |-> FALSE]

(* Balanced: group the leaves in nodes of m, group these, ... until there  *)
(* is only one; all the leaves are then at the same depth and only the     *)
(* right edge can be incomplete.                                           *)
CeilDiv(a, b) == (a + b - 1) \div b

Group(s, m) == [i \in 1..CeilDiv(Len(s), m) |->
                  Node(SubSeq(s, (i-1)*m + 1, MinI(i*m, Len(s))))]

RECURSIVE BalLevel(_, _)
BalLevel(s, m) == IF Len(s) = 1 THEN s[1] ELSE BalLevel(Group(s, m), m)

Balanced(sizes, m) ==
  IF sizes = <<>> THEN Leaf(0)
  ELSE BalLevel([i \in 1..Len(sizes) |-> Leaf(sizes[i])], m)

(* Trickle: a node of depth d has m leaves, then 4 nodes of each depth     *)
(* 1, 2, ... d-1 (without limit in the root), each one filled up before    *)
(* the next one is begun.                                                  *)
LayerRepeat == 4

RECURSIVE Cap(_, _)
\* Leaves that fit in a node of depth d.
Cap(d, m) == m + LayerRepeat * Sum([i \in 1..(d-1) |-> Cap(i, m)])

DepthAt(i) == (i - 1) \div LayerRepeat + 1     \* depth of the i-th sub-node

RECURSIVE TrNode(_, _)
RECURSIVE TrSubs(_, _, _)
TrSubs(s, i, m) ==
  IF s = <<>> THEN <<>>
  ELSE LET k == MinI(Len(s), Cap(DepthAt(i), m))
       IN  <<TrNode(SubSeq(s, 1, k), m)>> \o TrSubs(SubSeq(s, k+1, Len(s)), i+1, m)
TrNode(s, m) ==
  LET k == MinI(Len(s), m)
  IN  Node([i \in 1..k |-> Leaf(s[i])] \o TrSubs(SubSeq(s, k+1, Len(s)), 1, m))

\* An empty root can't be told from an empty leaf.
Trickle(sizes, m) == IF sizes = <<>> THEN Leaf(0) ELSE TrNode(sizes, m)

(* What makes a tree a trickle one, for trees that have been appended to:  *)
(* leaves first, then sub-nodes which are no deeper than their position    *)
(* allows.                                                                 *)
RECURSIVE TrickleOK(_, _, _)
TrickleOK(t, m, d) ==          \* d = 0: leaf, d = -1: root, without limit
  IF d = 0 THEN t.leaf
  ELSE IF d = -1 /\ t = Leaf(0) THEN TRUE
  ELSE /\ ~t.leaf
       /\ \A i \in 1..Len(t.c) :
            IF i <= m THEN TrickleOK(t.c[i], m, 0)
            ELSE /\ d = -1 \/ DepthAt(i - m) < d
                 /\ TrickleOK(t.c[i], m, DepthAt(i - m))
=============================================================================
