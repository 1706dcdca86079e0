------------------------------ MODULE HugeFile ------------------------------
(***************************************************************************)
(* Files of up to terabytes.  Positions and sizes are pairs <<hi, lo>>     *)
(* which stand for hi * B + lo (B = 2^20).  The content is a sequence of marks,    *)
(* ranges of bytes or of a constant, the later ones over the earlier ones. *)
(* All that counts near the beginning of a small file counts here, too.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS B,     \* the base
          Limit  \* numbers are cut at Limit * B

Big == Limit * B
Pr(n) == <<n \div B, n % B>>
Add(p, q) == LET lo == p[2] + q[2] IN <<p[1] + q[1] + lo \div B, lo % B>>
Lt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Le(p, q) == ~Lt(q, p)
\* p - q, for q <= p
Sub(p, q) == IF p[2] >= q[2] THEN <<p[1] - q[1], p[2] - q[2]>> ELSE <<p[1] - q[1] - 1, p[2] + B - q[2]>>
Times(n, p) == LET lo == n * p[2] IN <<n * p[1] + lo \div B, lo % B>>
\* As a number, which is cut at Big.
Num(p) == IF p[1] >= Limit THEN Big ELSE p[1] * B + p[2]
Lower(p, q) == IF Lt(p, q) THEN p ELSE q

(* A file is [size, m: marks], a mark [a, b, d, c]: bytes d (or, without    *)
(* these, c everywhere) from a up to b.                                    *)
Byte(f, p) ==
  LET K == {k \in 1..Len(f.m) : Le(f.m[k].a, p) /\ Lt(p, f.m[k].b)}
      k == CHOOSE i \in K : \A j \in K : j <= i
      x == f.m[k]
  IN IF x.d = <<>> THEN x.c ELSE x.d[Num(Sub(p, x.a)) + 1]

\* How many bytes there are to read from p on, up to n.
Left(f, p, n) == IF Le(f.size, p) THEN 0
                 ELSE LET k == Num(Sub(f.size, p)) IN IF k < n THEN k ELSE n
Bytes(f, p, n) == [i \in 1..Left(f, p, n) |-> Byte(f, Add(p, Pr(i - 1)))]

Run(a, b, c) == [a |-> a, b |-> b, d |-> <<>>, c |-> c]
Grow(f, s) == IF Le(s, f.size) THEN f ELSE [size |-> s, m |-> Append(f.m, Run(f.size, s, 0))]
Cut(f, s) == IF Le(f.size, s) THEN Grow(f, s) ELSE [f EXCEPT !.size = s]
Put(f, o, d) ==
  IF d = <<>> THEN f
  ELSE LET g == Grow(f, o)
           b == Add(o, Pr(Len(d)))
       IN [size |-> IF Lt(g.size, b) THEN b ELSE g.size,
           m |-> Append(g.m, [a |-> o, b |-> b, d |-> d, c |-> 0])]

(* Where a seek leads: <<>> before the beginning. *)
Target(size, pos, off, neg, wh) ==
  LET from == CASE wh = 0 -> <<0, 0>> [] wh = 1 -> pos [] wh = 2 -> size
  IN IF ~neg THEN Add(from, off)
     ELSE IF Lt(from, off) THEN <<>> ELSE Sub(from, off)

-----------------------------------------------------------------------------
(* The blocks of a file, the children before their parents; equal ones are *)
(* listed once.  runs: links, how many of the same in a row.               *)
SumP(s) == FoldLeft(Add, <<0, 0>>, s)
Content(N, k) == IF N[k].k = "raw" THEN Pr(N[k].len) ELSE N[k].fs
TreeSize(N) ==
  FoldLeft(LAMBDA acc, x : Append(acc, Add(Pr(x.own), SumP([i \in 1..Len(x.runs) |-> Times(x.runs[i].n, x.runs[i].ts)]))), <<>>, N)
BlockOK(N, T, x) ==
  CASE x.k = "raw"  -> TRUE
    [] x.k = "leaf" -> x.fs = Pr(x.len)
    [] x.k = "node" ->
         /\ x.len = 0
         /\ x.fs = SumP([i \in 1..Len(x.runs) |-> Times(x.runs[i].n, x.runs[i].bs)])
         /\ \A i \in 1..Len(x.runs) : /\ x.runs[i].bs = Content(N, x.runs[i].c)
                                      /\ x.runs[i].ts = T[x.runs[i].c]
    [] OTHER -> FALSE
TreeOK(N, size) ==
  /\ N # <<>> /\ Content(N, Len(N)) = size
  /\ LET T == TreeSize(N) IN \A k \in 1..Len(N) : BlockOK(N, T, N[k])
=============================================================================
