------------------------------ MODULE HugeRef ------------------------------
(***************************************************************************)
(* That the terms of HugeFile, pairs for numbers and marks for contents,   *)
(* say the same as numbers and sequences of bytes (ByteFile) do, for every *)
(* history of edits of files of up to Len0 bytes and every place in them;  *)
(* and that a walk down a tree of equal subtrees finds the place that the  *)
(* contents say, by comparing pairs.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Base, MaxLen, Edits, Flaw
INSTANCE HugeFile WITH B <- Base, Limit <- 64
BF == INSTANCE ByteFile

VARIABLES f,  \* as HugeFile has it
          c,  \* the bytes
          k
vars == <<f, c, k>>

N(p) == p[1] * Base + p[2]

\* The flaws of code that works in 32 bits.
Less(p, q) == CASE Flaw = "low"  -> p[2] < q[2]
                [] Flaw = "high" -> p[1] < q[1]
                [] OTHER -> Lt(p, q)
Minus(p, q) == IF Flaw = "borrow" THEN <<p[1] - q[1], (p[2] + Base - q[2]) % Base>> ELSE Sub(p, q)

(* Down a tree with links to subtrees of u bytes: which one, and where in it. *)
RECURSIVE Down(_, _, _)
Down(p, u, i) == IF Less(p, u) \/ i > MaxLen THEN <<i, p>> ELSE Down(Minus(p, u), u, i + 1)

Init == \E n \in 0..MaxLen :
          /\ c = [i \in 1..n |-> 9]
          /\ f = [size |-> Pr(n), m |-> <<Run(<<0, 0>>, Pr(n), 9)>>]
          /\ k = 0
Under(g, h) == IF Flaw = "under" /\ Len(h.m) > Len(g.m) THEN [h EXCEPT !.m = <<h.m[Len(h.m)]>> \o g.m] ELSE h
Write == \E o \in 0..MaxLen, n \in 0..3 :
          /\ o + n <= MaxLen
          /\ LET d == [i \in 1..n |-> k + 1]
             IN /\ c' = IF n = 0 THEN c ELSE BF!Overlay(c, o, d)
                /\ f' = Under(f, Put(f, Pr(o), d))
Truncate == \E n \in 0..MaxLen : c' = BF!Cut(c, n) /\ f' = IF Flaw = "left" /\ n > Len(c) 
            THEN [size |-> Pr(n), m |-> Append(f.m, Run(f.size, Pr(n), 9))]  \* what was there before
            ELSE Cut(f, Pr(n))
Next == k < Edits /\ k' = k + 1 /\ (Write \/ Truncate)
Spec == Init /\ [][Next]_vars

Same ==
  /\ N(f.size) = Len(c)
  /\ \A o \in 0..MaxLen + 1, n \in {0, 1, 2, MaxLen} :
       Bytes(f, Pr(o), n) = IF o >= Len(c) THEN <<>> ELSE SubSeq(c, o + 1, IF o + n < Len(c) THEN o + n ELSE Len(c))

\* The arithmetic, and the walk.
Numbers ==
  k = 0 =>
    /\ \A u \in 1..MaxLen : LET d == Down(f.size, Pr(u), 1) IN d = <<Len(c) \div u + 1, Pr(Len(c) % u)>>
    /\ \A a, b \in 0..MaxLen :
       /\ N(Add(Pr(a), Pr(b))) = a + b
       /\ Lt(Pr(a), Pr(b)) = (a < b) /\ Le(Pr(a), Pr(b)) = (a <= b)
       /\ b <= a => N(Sub(Pr(a), Pr(b))) = a - b
       /\ a <= 8 => N(Times(a, Pr(b))) = a * b
       /\ \A wh \in 0..2, neg \in BOOLEAN :
            LET from == CASE wh = 0 -> 0 [] wh = 1 -> b [] OTHER -> Len(c)
                t == Target(f.size, Pr(b), Pr(a), neg, wh)
                n == IF neg THEN from - a ELSE from + a
            IN t = IF n < 0 THEN <<>> ELSE Pr(n)
=============================================================================
