------------------------------ MODULE Preload ------------------------------
(***************************************************************************)
(* How a reader comes to fetch blocks: the walk asks for the child it goes *)
(* to next, and some of those after it are requested along with it.  Checks*)
(* Locality.tla (C30): whatever was called before, what was requested is   *)
(* within what the calls needed, and nothing twice unless there were seeks.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Batch, Low,    \* requested at a time; ask for more when fewer are left
          Deep, Flaw

INSTANCE Locality WITH Ahead <- Batch + Low - 2

(* Shapes: a leaf of n bytes, or a node.                                   *)
Lf(n) == [n |-> n, c |-> <<>>]
Nd(c) == [n |-> FoldLeft(LAMBDA a, x : a + x.n, 0, c), c |-> c]
Two == Nd(<<Lf(1), Lf(1)>>)
Six == Nd(<<Lf(1), Lf(1), Lf(1), Lf(1), Lf(1), Lf(1)>>)
Four == Nd(<<Lf(1), Lf(2), Lf(1), Lf(1)>>)
Shapes == {Lf(2), Six, Nd(<<Two, Two, Two>>), Nd(<<Lf(1), Lf(1), Two, Nd(<<Lf(1), Two>>)>>)}
          \cup (IF Deep THEN {Nd(<<Six, Six>>), Nd(<<Nd(<<Two, Two>>), Nd(<<Two, Two>>)>>), Nd(<<Lf(1), Four, Two, Lf(2), Two>>)} ELSE {})

(* The nodes of a shape as Locality has them, parents first.               *)
RECURSIVE Flat(_, _, _, _, _), FlatAll(_, _, _, _, _)
Flat(t, p, i, lo, acc) == FlatAll(t.c, 1, Len(acc) + 1, lo, Append(acc, <<p, i, lo, lo + t.n>>))
FlatAll(c, j, p, lo, acc) ==
  IF j > Len(c) THEN acc ELSE FlatAll(c, j + 1, p, lo + c[j].n, Flat(c[j], p, j, lo, acc))

VARIABLES N, w, may, passes
vars == <<N, w, may, passes>>

Kids(k) == {x \in 2..Len(N) : P(N, x) = k}
NKids(k) == Cardinality(Kids(k))
Kid(k, j) == CHOOSE x \in Kids(k) : I(N, x) = j
Leaf(k) == Kids(k) = {}

\* p: nodes on the way, x: index of the child in use of each (0: none yet),
\* left: bytes left of the leaf, pr: children that were requested and not used
\* yet, cnt: how often each was requested.
Start(cnt) == [p |-> <<1>>, x |-> <<0>>, left |-> 0, new |-> TRUE, off |-> 0,
               pr |-> [k \in 1..Len(N) |-> {}], cnt |-> cnt]

RECURSIVE Below(_)
Below(k) == Kids(k) \cup UNION {Below(x) : x \in Kids(k)}

\* Child j of node k is asked for.
Ask(v, k, j) ==
  LET miss == {i \in j..(j + Low - 1) : i <= NKids(k) /\ i \notin v.pr[k]}
      i0 == CHOOSE i \in miss : \A o \in miss : i <= o
      want == IF miss = {} THEN {} ELSE {i \in i0..(i0 + Batch - 1) : i <= NKids(k)}
      ids == {Kid(k, i) : i \in want} \cup (IF Flaw = "deep" THEN UNION {Kids(Kid(k, i)) : i \in want} ELSE {})
  IN [v EXCEPT !.pr[k] = (@ \cup want) \ {j},
               !.cnt = [y \in DOMAIN @ |-> IF y \in ids THEN @[y] + 1 ELSE @[y]]]

\* The walk enters child j of the node it is at.
Enter(v, j) ==
  LET m == Len(v.p)
      k == v.p[m]
      u == Ask(v, k, j)
  IN [u EXCEPT !.p = Append(@, Kid(k, j)), !.x = Append([@ EXCEPT ![m] = j], 0), !.new = TRUE]

\* n bytes are read.
RECURSIVE Go(_, _)
Go(v, n) ==
  LET m == Len(v.p) k == v.p[m] IN
  IF Leaf(k)
  THEN LET u == IF v.new THEN [v EXCEPT !.new = FALSE, !.left = Hi(N, k) - Lo(N, k)] ELSE v
           z == Least(n, u.left)
           u2 == [u EXCEPT !.left = @ - z, !.off = @ + z]
       IN IF n = z THEN u2
          ELSE IF m = 1 THEN u2
          ELSE Go([u2 EXCEPT !.p = SubSeq(@, 1, m - 1), !.x = SubSeq(@, 1, m - 1)], n - z)
  ELSE IF v.x[m] < NKids(k) THEN Go(Enter(v, v.x[m] + 1), n)
  ELSE IF m = 1 THEN v
  ELSE Go([v EXCEPT !.p = SubSeq(@, 1, m - 1), !.x = SubSeq(@, 1, m - 1)], n)

\* Down to the leaf with the byte at o.
RECURSIVE Down(_, _)
Down(v, o) ==
  LET m == Len(v.p) k == v.p[m] IN
  IF Leaf(k) THEN [v EXCEPT !.new = FALSE, !.left = Hi(N, k) - o]
  ELSE LET on == {x \in Kids(k) : Hi(N, x) > o} IN
       IF on = {} THEN [v EXCEPT !.x[m] = NKids(k)]
       ELSE LET c == CHOOSE x \in on : \A y \in on : I(N, x) <= I(N, y)
                RECURSIVE Past(_, _)
                Past(u, j) == IF j >= I(N, c) THEN u ELSE Past(Ask(u, k, j), j + 1)
                u0 == IF Flaw = "sizes" THEN Past(v, 1) ELSE v
            IN Down(Enter(u0, I(N, c)), o)

DoSeek(v, o) ==
  IF o = v.off THEN v
  ELSE LET s == Start(v.cnt) IN
       IF Flaw = "scan" THEN Go(s, o)
       ELSE IF o = 0 THEN s ELSE [Down(s, o) EXCEPT !.off = o]

Init == /\ N \in {Flat(t, 0, 1, 0, <<>>) : t \in Shapes}
        /\ w = (LET z == [k \in 1..Len(N) |-> 0] IN
                IF Flaw = "eager" THEN Start([z EXCEPT ![2] = IF Len(N) > 1 THEN 1 ELSE 0]) ELSE Start(z))
        /\ may = {} /\ passes = 1

Bound == 3

Read(n) == /\ LET u == IF Flaw = "restart" /\ w.off > 0
                       THEN Go([Down(Start(w.cnt), w.off) EXCEPT !.off = w.off], n) ELSE Go(w, n)
              IN /\ w' = u
                 /\ may' = may \cup Reading(N, w.off, u.off)
           /\ UNCHANGED <<N, passes>>
Seek(o) == /\ passes < Bound
           /\ w' = DoSeek(w, o)
           /\ may' = may \cup Reading(N, o, o)
           /\ passes' = passes + 1
           /\ UNCHANGED N

Next == \/ \E n \in 1..Size(N) : Read(n)
        \/ \E o \in 0..Size(N) : Seek(o)
Spec == Init /\ [][Next]_vars

Local == \A k \in 1..Len(N) : w.cnt[k] > 0 => k \in may /\ w.cnt[k] <= passes
=============================================================================
