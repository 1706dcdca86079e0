---------------------------- MODULE TrickleAppend ----------------------------
(***************************************************************************)
(* Appending to trickle trees: the algorithm which resumes at the right    *)
(* edge of the tree it finds, over all the histories of appends (sizes of  *)
(* the pieces, empty ones included) up to a total length.                  *)
(*                                                                         *)
(* Checked: the tree keeps the trickle structure and the leaves are the    *)
(* old ones followed by the new ones (C04); appending everything at once   *)
(* to the empty file is the same as building the tree (C03); the nodes on  *)
(* the left of the edge are shared with the old tree (C09, C20).           *)
(*                                                                         *)
(* It also generates histories for the driver: one for each different tree *)
(* that appends can lead to (see Generate).                                *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils, TLC

CONSTANTS MaxLeaves, Widths, Flaw, Emit

VARIABLES m, tree, n, hist
vars == <<m, tree, n, hist>>

\* A function of a node under construction and of what remains to be added:
\* s is the sequence of leaves, and the result is <<node, rest of s>>.
NKids(t) == Len(t.c)
AddKid(t, k) == Node(Append(t.c, k))
SwapLast(t, k) == Node(Append(Front(t.c), k))

NoLimit == 1000000

FillLayer(t, s) ==
  LET k == MinI(Len(s), MaxI(m - NKids(t), 0))
  IN  <<Node(t.c \o SubSeq(s, 1, k)), SubSeq(s, k + 1, Len(s))>>

RECURSIVE FillRec(_, _, _)
RECURSIVE FillGroup(_, _, _, _)
RECURSIVE FillGroups(_, _, _, _)
\* Up to k sub-nodes of depth d.
FillGroup(t, s, d, k) ==
  IF s = <<>> \/ k = 0 THEN <<t, s>>
  ELSE LET r == FillRec(Node(<<>>), s, d)
       IN  FillGroup(AddKid(t, r[1]), r[2], d, k - 1)
\* Full groups of each depth d, d + 1, ... below lim.
FillGroups(t, s, d, lim) ==
  IF s = <<>> \/ d >= lim THEN <<t, s>>
  ELSE LET r == FillGroup(t, s, d, LayerRepeat) IN FillGroups(r[1], r[2], d + 1, lim)
FillRec(t, s, lim) == LET r == FillLayer(t, s) IN FillGroups(r[1], r[2], 1, lim)

\* Where the tree was left: depth of the group that comes next, and how many
\* of it are there already.
Depth(t) == IF NKids(t) < m THEN 0 ELSE (NKids(t) - m) \div LayerRepeat + 1
Rep(t)   == IF NKids(t) < m THEN 0 ELSE (NKids(t) - m) % LayerRepeat

RECURSIVE AppendRec(_, _, _)
FillLast(t, s, d, rep) ==
  IF NKids(t) <= m THEN <<t, s>>
  ELSE LET last == t.c[NKids(t)]
           r1 == IF Len(last.c) = 0 THEN <<t, s>>
                 ELSE LET r == AppendRec(last, s, IF Flaw = "deep" THEN d ELSE d - 1)
                      IN  <<IF Flaw = "twice" THEN AddKid(t, r[1]) ELSE SwapLast(t, r[1]), r[2]>>
       IN  IF rep = 0 THEN r1 ELSE FillGroup(r1[1], r1[2], d, LayerRepeat - rep)

AppendRec(t, s, lim) ==
  IF lim = 0 \/ s = <<>> THEN <<t, s>>
  ELSE LET d0 == Depth(t)
           r0 == IF d0 = 0 THEN FillLayer(t, s) ELSE <<t, s>>
           d1 == IF d0 = 0 THEN 1 ELSE d0
       IN  IF d1 = lim THEN r0
           ELSE LET r1 == FillLast(r0[1], r0[2], d1, Rep(t))
                    d2 == IF r1[2] # <<>> /\ Rep(t) # 0 THEN d1 + 1 ELSE d1
                IN  FillGroups(r1[1], r1[2], d2, lim)

\* The empty file is a node without children.
AsNode(t) == IF t = Leaf(0) THEN Node(<<>>) ELSE t
AsTree(t) == IF t.c = <<>> THEN Leaf(0) ELSE t

Grow(t0, s) ==
  LET t  == AsNode(t0)
      d0 == Depth(t)
      r0 == IF d0 = 0 THEN FillLayer(t, s) ELSE <<t, s>>
      d1 == IF d0 = 0 THEN 1 ELSE d0
  IN  IF d0 = 0 /\ r0[2] = <<>> THEN AsTree(r0[1])
      ELSE LET r1 == FillLast(r0[1], r0[2], IF Flaw = "deep" THEN d1 + 1 ELSE d1 - 1, Rep(t))
               d2 == IF r1[2] # <<>> /\ Rep(t) # 0 THEN d1 + 1 ELSE d1
           IN  AsTree(FillGroups(r1[1], r1[2], d2, NoLimit)[1])

\* Leaf number i has i bytes.
Piece(k) == [i \in 1..k |-> Leaf(n + i)]

Init == m \in Widths /\ tree = Leaf(0) /\ n = 0 /\ hist = <<>>

AppendPiece(k) ==
  /\ n + k <= MaxLeaves
  /\ tree' = Grow(tree, Piece(k))
  /\ n' = n + k
  /\ hist' = Append(hist, k)
  /\ m' = m
  /\ Emit => PrintT("GEN" \o ToJson(<<m>> \o hist'))

\* Empty pieces change nothing, in a state that is told apart by nothing else.
Next == \E k \in 0..MaxLeaves : AppendPiece(k)
Spec == Init /\ [][Next]_vars

\* How the tree was come by doesn't matter.
Shape_ == <<m, tree>>

------------------------------------------------------------------------------
RECURSIVE Leaves(_)
Leaves(t) == IF t.leaf THEN (IF t.n = 0 THEN <<>> ELSE <<t.n>>)
             ELSE FoldLeft(LAMBDA a, c : a \o Leaves(c), <<>>, t.c)

Content   == Leaves(tree) = [i \in 1..n |-> i]
Structure == TrickleOK(tree, m, -1)
Atonce    == Len(hist) = 1 => tree = Trickle([i \in 1..n |-> i], m)
\* Only the right edge is rewritten.
Shares    == [][\A i \in 1..(Len(tree.c) - 1) : tree'.c[i] = tree.c[i]]_vars
Empty     == [][n' = n => tree' = tree]_vars
==============================================================================
