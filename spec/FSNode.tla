------------------------------- MODULE FSNode -------------------------------
(***************************************************************************)
(* UnixFS nodes: [type, data, bs, ht, fan], and how they account for their *)
(* size.  Sizes are 64 bit numbers, as sequences of four limbs of 16 bits, *)
(* the least significant one first.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 65536
Zero64 == <<0, 0, 0, 0>>
Num(n) == <<n % Base, n \div Base, 0, 0>>     \* n < 2^31

Add(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div Base
      s3 == a[3] + b[3] + s2 \div Base
      s4 == a[4] + b[4] + s3 \div Base
  IN  <<s1 % Base, s2 % Base, s3 % Base, s4 % Base>>

Total(bs) == FoldLeft(Add, Zero64, bs)

IsFile(n) == n.type \in {"File", "Raw"}
IsDir(n)  == n.type \in {"Directory", "HAMTShard"}

\* The recorded size of nodes of files: the data and the blocks.
Recorded(n) == Add(Num(Len(n.data)), Total(n.bs))

FileSize(n) == CASE IsFile(n) -> Recorded(n)
                 [] n.type = "Symlink" -> Num(Len(n.data))
                 [] OTHER -> Zero64

SetData(n, d)      == [n EXCEPT !.data = d]
AddBlock(n, x)     == [n EXCEPT !.bs = Append(@, x)]
RemoveBlock(n, i)  == [n EXCEPT !.bs = RemoveAt(@, i)]
RemoveBlocks(n)    == [n EXCEPT !.bs = <<>>]

\* What the accessors show.
Shows(s, n) ==
  /\ s.type = n.type /\ s.data = n.data
  /\ s.bs = n.bs /\ s.all = n.bs
  /\ s.fs = FileSize(n)
  /\ s.ht = n.ht /\ s.fan = n.fan
  /\ s.dir = IsDir(n)

\* What is in the encoding.
Encodes(s, n) ==
  /\ s.type = n.type /\ s.data = n.data /\ s.bs = n.bs
  /\ IsFile(n) => s.fs = Recorded(n)
  /\ s.ht = n.ht /\ s.fan = n.fan
=============================================================================
