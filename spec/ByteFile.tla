------------------------------ MODULE ByteFile ------------------------------
(* Operations on files as sequences of bytes. *)
EXTENDS Integers, Sequences, SequencesExt

Zeros(n) == [i \in 1..n |-> 0]
Pad(c, n) == IF n <= Len(c) THEN c ELSE c \o Zeros(n - Len(c))
Cut(c, n) == IF n <= Len(c) THEN SubSeq(c, 1, n) ELSE Pad(c, n)

\* d written over c at offset o, with zeros in the gap, if any.
Overlay(c, o, d) ==
  IF d = <<>> \/ o < 0 THEN c
  ELSE LET p == Pad(c, o)
       IN  SubSeq(p, 1, o) \o d \o SubSeq(p, o + Len(d) + 1, Len(p))

From(c, o) == IF o >= Len(c) \/ o < 0 THEN <<>> ELSE SubSeq(c, o + 1, Len(c))
=============================================================================
