------------------------------ MODULE FileDag ------------------------------
(* What is read from a file of any shape (C28).                              *)
(*                                                                           *)
(* A DAG is a sequence of nodes, children before their parents:              *)
(*   [k, d, kids, bs, n]   k: "leaf" (d: its bytes), "inner" (kids: indices  *)
(*   of its children; bs: the sizes it gives them), "missing" (not in the    *)
(*   store), "bad" (there, but not a part of a file); n: the size a parent   *)
(*   gives it.                                                               *)
(* The file is the sequence of the leaves in order, the segments. A reader   *)
(* is somewhere in a segment; what it can't get stops it and goes on         *)
(* stopping it, and whatever lies elsewhere does not matter.                 *)
EXTENDS Integers, Sequences

Lower(a, b) == IF a < b THEN a ELSE b

RECURSIVE Segs(_, _), SegsOf(_, _, _)
Segs(ns, i) == LET x == ns[i] IN
  IF x.k = "inner" THEN SegsOf(ns, x.kids, 1)
  ELSE << [ok |-> x.k = "leaf", d |-> x.d] >>
SegsOf(ns, ks, j) == IF j > Len(ks) THEN <<>> ELSE Segs(ns, ks[j]) \o SegsOf(ns, ks, j + 1)

RECURSIVE Find(_, _, _, _), Into(_, _, _, _, _)
(* Descending to offset `left` below node i, whose first segment is number   *)
(* s: what is found, or why not.                                             *)
Find(ns, i, left, s) == LET x == ns[i] IN
  CASE x.k \in {"missing", "bad"} -> [r |-> "fails", s |-> s, o |-> 0]
    [] x.k = "leaf" -> [r |-> "ok", s |-> s, o |-> Lower(left, Len(x.d))]
    [] OTHER -> IF Len(x.bs) # Len(x.kids) THEN [r |-> "fails", s |-> s, o |-> 0]
                ELSE Into(ns, x, 1, left, s)
Into(ns, x, j, left, s) ==
  IF j > Len(x.kids) THEN [r |-> "ok", s |-> s, o |-> 0]
  ELSE IF x.bs[j] > left THEN Find(ns, x.kids[j], left, s)
  ELSE Into(ns, x, j + 1, left - x.bs[j], s + Len(Segs(ns, x.kids[j])))

\* Reading at most n bytes from offset o of segment s on.
RECURSIVE Take(_, _, _, _)
Take(sg, s, o, n) ==
  IF s > Len(sg) THEN [b |-> <<>>, s |-> s, o |-> 0, err |-> "EOF"]
  ELSE IF ~sg[s].ok THEN [b |-> <<>>, s |-> s, o |-> 0, err |-> "other"]
  ELSE LET have == SubSeq(sg[s].d, o + 1, Len(sg[s].d)) IN
       IF Len(have) >= n THEN [b |-> SubSeq(have, 1, n), s |-> s, o |-> o + n, err |-> "nil"]
       ELSE LET t == Take(sg, s + 1, 0, n - Len(have)) IN [t EXCEPT !.b = have \o @]

(* A reader: segments, segment number, offset within it, position.           *)
Fresh(ns, root) == [ns |-> ns, root |-> root, sg |-> Segs(ns, root), s |-> 1, o |-> 0, off |-> 0]

Huge == 1000000
ReadOK(rd, e) ==
  LET t == Take(rd.sg, rd.s, rd.o, e.n) IN
  /\ e.got = t.b
  \* Nothing is promised about reading nothing.
  /\ e.n > 0 => e.err = t.err
AfterRead(rd, e) ==
  LET t == Take(rd.sg, rd.s, rd.o, e.n) IN
  [rd EXCEPT !.s = t.s, !.o = t.o, !.off = @ + Len(t.b)]

WriteOK(rd, e) ==
  LET t == Take(rd.sg, rd.s, rd.o, Huge) IN
  e.got = t.b /\ e.err = (IF t.err = "EOF" THEN "nil" ELSE t.err)
AfterWrite(rd) ==
  LET t == Take(rd.sg, rd.s, rd.o, Huge) IN
  [rd EXCEPT !.s = t.s, !.o = t.o, !.off = @ + Len(t.b)]

Sought(rd, p) ==
  IF p = rd.off THEN [r |-> "stays", s |-> rd.s, o |-> rd.o]
  ELSE IF p = 0 THEN [r |-> "ok", s |-> 1, o |-> 0]
  ELSE Find(rd.ns, rd.root, p, 1)
SeekOK(rd, e) == IF Sought(rd, e.n).r = "fails" THEN e.err = "other"
                 ELSE e.err = "nil" /\ e.ret = e.n
AfterSeek(rd, e) ==
  LET f == Sought(rd, e.n) IN
  IF f.r = "fails" THEN [rd EXCEPT !.s = 1, !.o = 0, !.off = 0]
  ELSE [rd EXCEPT !.s = f.s, !.o = f.o, !.off = e.n]
=============================================================================
