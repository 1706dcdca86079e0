------------------------------ MODULE FileWalk ------------------------------
(***************************************************************************)
(* How a file of any shape is read: the walk down its DAG, which may meet  *)
(* blocks that are missing or aren't a file's, against FileDag.tla (C28):  *)
(* whatever calls came before, each call delivers and answers what it says.*)
(*                                                                         *)
(* Also generates histories: a DAG and calls on it.                        *)
(***************************************************************************)
EXTENDS FileDag, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Deep, MaxCalls, Flaw, Emit

(* Shapes: leaves of n bytes, what isn't there and what isn't a leaf though *)
(* said to have n bytes, nodes, and nodes that give too few sizes.          *)
T(k, n, c) == [k |-> k, n |-> n, c |-> c]
Lf(n) == T("leaf", n, <<>>)
Ms(n) == T("missing", n, <<>>)
Bd(n) == T("bad", n, <<>>)
Nd(c) == T("inner", FoldLeft(LAMBDA a, x : a + x.n, 0, c), c)
Nx(c) == T("few", FoldLeft(LAMBDA a, x : a + x.n, 0, c), c)

Few == {Lf(0), Lf(1), Lf(2), Ms(1), Bd(0), Bd(2)}
Subs == {Lf(2), Bd(1), Nd(<<Lf(1), Lf(1)>>), Nd(<<Lf(1), Bd(1)>>), Nd(<<Ms(1), Lf(1)>>), Nx(<<Lf(1), Lf(1)>>), Nd(<<Bd(0)>>)}
Shapes == IF Deep
          THEN {Lf(2)} \cup {Nd(<<a, b>>) : a, b \in Few} \cup {Nx(<<a, b>>) : a, b \in Few}
               \cup {Nd(<<a, b, c>>) : a, b, c \in Few}
               \cup {Nd(<<a, b, c>>) : a \in Few, b \in Subs, c \in Few}
               \cup {Nd(<<a, b>>) : a, b \in Subs}
          ELSE {Lf(2), Nd(<<Lf(2), Bd(1), Lf(1)>>), Nd(<<Lf(1), Ms(1), Lf(2)>>), Nx(<<Lf(1), Lf(2)>>),
                Nd(<<Lf(1), Bd(0), Lf(1)>>), Nd(<<Lf(0), Nd(<<Lf(1), Bd(1)>>), Lf(2)>>),
                Nd(<<Nd(<<Lf(1), Lf(1)>>), Nx(<<Lf(1), Lf(1)>>), Lf(1)>>), Nd(<<Nd(<<Bd(2)>>), Lf(2)>>)}

(* The nodes of a shape, children first, their bytes numbered from b + 1.   *)
RECURSIVE Nodes(_, _, _), Kids(_, _, _, _, _)
\* k: nodes there are already. <<nodes, with the root last>>
Nodes(t, k, b) ==
  IF t.c = <<>> THEN << [k |-> t.k, d |-> IF t.k = "leaf" THEN [i \in 1..t.n |-> b + i] ELSE <<>>,
                         kids |-> <<>>, bs |-> <<>>, n |-> t.n] >>
  ELSE LET r == Kids(t.c, 1, k, b, [ns |-> <<>>, ks |-> <<>>]) IN
       Append(r.ns, [k |-> "inner", d |-> <<>>, kids |-> r.ks, n |-> t.n,
                     bs |-> LET z == [i \in 1..Len(t.c) |-> t.c[i].n] IN
                            IF t.k = "few" THEN SubSeq(z, 1, Len(z) - 1) ELSE z])
Kids(c, j, k, b, acc) ==
  IF j > Len(c) THEN acc
  ELSE LET s == Nodes(c[j], k + Len(acc.ns), b) IN
       Kids(c, j + 1, k, b + c[j].n, [ns |-> acc.ns \o s, ks |-> Append(acc.ks, k + Len(acc.ns) + Len(s))])

VARIABLES ns,      \* the DAG, its root last
          w,       \* the walk: nodes, next children, what is left of a leaf, whether it is stuck, position
          rd,      \* FileDag's reader
          bad,     \* an answer that FileDag doesn't give
          hist
vars == <<ns, w, rd, bad, hist>>

Start == [p |-> <<>>, x |-> <<>>, buf |-> <<>>, stuck |-> FALSE, off |-> 0]
Init == /\ \E t \in Shapes : ns = Nodes(t, 0, 0) /\ hist = <<<<"T", ns>>>>
        /\ w = Start /\ rd = Fresh(ns, Len(ns)) /\ bad = FALSE

\* The next child, of the nearest node that has one.
RECURSIVE Forward(_, _)
Forward(p, x) ==
  LET n == Len(p)
      j == Lower(x[n] + 1, Len(ns[p[n]].kids) + 1)
      x2 == [x EXCEPT ![n] = j]
  IN  IF j <= Len(ns[p[n]].kids) THEN <<p, x2, TRUE>>
      ELSE IF n = 1 THEN <<p, x2, FALSE>>
      ELSE Forward(SubSeq(p, 1, n - 1), SubSeq(x2, 1, n - 1))

Cut(d, k) == SubSeq(d, k + 1, Len(d))

(* Reading n bytes: a = what has been read.                                *)
RECURSIVE Go(_, _, _), At(_, _, _, _)
\* The walk gets to node i.
At(i, v, n, a) ==
  LET u == [v EXCEPT !.p = Append(@, i), !.x = Append(@, 1)] IN
  CASE ns[i].k = "inner" -> IF Flaw = "inline" THEN Go(u, n, Append(a, 0)) ELSE Go(u, n, a)
    [] ns[i].k = "bad"   -> IF Flaw = "ignored" THEN Go(u, n, a)
                            ELSE [v |-> [u EXCEPT !.stuck = Flaw # "unstuck"], b |-> a, err |-> "other"]
    [] OTHER -> LET k == Lower(n - Len(a), Len(ns[i].d))
                    u2 == [u EXCEPT !.buf = Cut(ns[i].d, k), !.off = @ + k]
                    a2 == a \o SubSeq(ns[i].d, 1, k) IN
                IF Len(a2) = n THEN [v |-> u2, b |-> a2, err |-> "nil"] ELSE Go(u2, n, a2)
Go(v, n, a) ==
  LET m == Len(v.p) IN
  IF m = 0 THEN At(Len(ns), v, n, a)
  ELSE LET x == ns[v.p[m]] IN
       IF v.x[m] <= Len(x.kids)
       THEN LET i == x.kids[v.x[m]] IN
            IF ns[i].k = "missing" THEN [v |-> v, b |-> a, err |-> "other"] ELSE At(i, v, n, a)
       ELSE LET f == Forward(v.p, v.x)
                u == [v EXCEPT !.p = f[1], !.x = f[2]] IN
            IF f[3] THEN Go(u, n, a) ELSE [v |-> u, b |-> a, err |-> "EOF"]

DoRead(n) ==
  IF w.stuck THEN [v |-> w, b |-> <<>>, err |-> "other"]
  ELSE LET k == Lower(n, Len(w.buf))
           u == [w EXCEPT !.buf = Cut(@, k), !.off = @ + k]
           a == SubSeq(w.buf, 1, k) IN
       IF w.buf # <<>> /\ k = n THEN [v |-> u, b |-> a, err |-> "nil"] ELSE Go(u, n, a)

(* Seeking: down to the child that has the offset, by the sizes given.     *)
RECURSIVE Skip(_, _, _), Down(_, _, _)
Skip(x, j, left) == IF j > Len(x.kids) THEN <<j, left>>
                    ELSE IF x.bs[j] > left \/ (Flaw = "early" /\ x.bs[j] = left) THEN <<j, left>>
                    ELSE Skip(x, j + 1, left - x.bs[j])
Down(i, v, left) ==
  LET x == ns[i] u == [v EXCEPT !.p = Append(@, i)] IN
  CASE x.k \in {"missing", "bad"} -> [v |-> Start, ok |-> FALSE]
    [] x.k = "leaf" -> [v |-> [u EXCEPT !.x = Append(@, 1), !.buf = Cut(x.d, Lower(left, Len(x.d)))], ok |-> TRUE]
    [] OTHER -> IF Len(x.bs) # Len(x.kids) THEN [v |-> Start, ok |-> FALSE]
                ELSE LET s == Skip(x, 1, left)
                         u2 == [u EXCEPT !.x = Append(@, s[1])] IN
                     IF s[1] > Len(x.kids) THEN [v |-> u2, ok |-> TRUE]
                     ELSE Down(x.kids[s[1]], u2, s[2])
DoSeek(p) ==
  IF p = w.off THEN [v |-> w, ok |-> TRUE]
  ELSE IF p = 0 THEN [v |-> Start, ok |-> TRUE]
  ELSE LET d == Down(Len(ns), Start, p) IN IF d.ok THEN [d EXCEPT !.v.off = p] ELSE d

More == MaxCalls = 0 \/ Len(hist) <= MaxCalls
Did(h) == hist' = Append(hist, h) /\ (IF Emit THEN PrintT("GEN" \o ToJson(hist')) ELSE TRUE)

Read(n) ==
  LET g == DoRead(n)
      e == [n |-> n, got |-> g.b, err |-> g.err] IN
  /\ More /\ Did(<<"R", n>>)
  /\ w' = g.v
  /\ rd' = AfterRead(rd, e)
  /\ bad' = ~(ReadOK(rd, e) /\ rd'.off = g.v.off)
  /\ ns' = ns
Write ==
  LET g == DoRead(Huge)
      e == [got |-> g.b, err |-> IF g.err = "EOF" THEN "nil" ELSE g.err] IN
  /\ More /\ Did(<<"W", 0>>)
  /\ w' = g.v
  /\ rd' = AfterWrite(rd)
  /\ bad' = ~(WriteOK(rd, e) /\ rd'.off = g.v.off)
  /\ ns' = ns
Seek(p) ==
  LET g == DoSeek(p)
      e == [n |-> p, err |-> IF g.ok THEN "nil" ELSE "other", ret |-> p] IN
  /\ More /\ Did(<<"S", p>>)
  /\ w' = g.v
  /\ rd' = AfterSeek(rd, e)
  /\ bad' = ~(SeekOK(rd, e) /\ rd'.off = g.v.off)
  /\ ns' = ns

Next == (\E n \in 1..3 : Read(n)) \/ Write \/ (\E p \in 0..(ns[Len(ns)].n + 1) : Seek(p))
Spec == Init /\ [][Next]_vars

View == <<ns, w, rd.s, rd.o, rd.off, bad>>
GenView == <<ns, w, rd.s, rd.o, rd.off>>
Agrees == ~bad
=============================================================================
