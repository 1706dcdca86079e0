------------------------------ MODULE TreeEdit ------------------------------
(***************************************************************************)
(* How the tree of a file is edited: bytes are written over it, node by    *)
(* node, following the recorded sizes; a truncation keeps what is on the   *)
(* left and cuts the first child that reaches beyond the new size.  What   *)
(* is left of the bytes to be written after the end of the tree is for an  *)
(* append (TrickleAppend.tla).                                             *)
(*                                                                         *)
(* Checked, for every tree up to a size: the content is what it should be  *)
(* (C08), the recorded sizes agree with it (C07), children that aren't     *)
(* touched are the same blocks as before (C20), and blocks are stored      *)
(* after their children (C10).                                             *)
(*                                                                         *)
(* Also generates histories: each tree with each edit, for the driver to   *)
(* replay in the real code.                                                *)
(***************************************************************************)
EXTENDS ByteFile, Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Deep,      \* more trees
          Edits,     \* how many in a row
          Emit, Flaw

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* Trees: leaf sizes first, then with the bytes numbered.                  *)
L(n) == [z |-> n, c |-> <<>>]
N(cs) == [z |-> -1, c |-> cs]
T0 == {L(0), L(1), L(2)}
T1 == {N(<<a>>) : a \in T0} \cup {N(<<a, b>>) : a, b \in T0}
T3 == {N(<<a, b, c>>) : a, b, c \in T0}
Mix == T0 \cup {N(<<L(1)>>), N(<<L(2), L(0)>>), N(<<L(0), L(1)>>), N(<<L(1), L(2)>>)}
T2 == {N(<<a, b>>) : a, b \in Mix}
Mix2 == {L(1), L(2), N(<<L(2), L(1)>>), N(<<N(<<L(1), L(1)>>), L(1)>>), N(<<N(<<L(0)>>), N(<<L(2)>>)>>)}
T4 == {N(<<a, b, c>>) : a, b, c \in Mix2}
Shapes == IF Deep THEN T0 \cup T1 \cup T3 \cup T2 \cup T4 ELSE T0 \cup T1 \cup T2

RECURSIVE Zs(_)
Zs(t) == IF t.c = <<>> THEN t.z ELSE FoldLeft(LAMBDA a, x : a + Zs(x), 0, t.c)

\* A tree: a leaf has data, a node has block sizes and children.
Leaf(d) == [d |-> d, bs |-> <<>>, c |-> <<>>]
Node(bs, c) == [d |-> <<>>, bs |-> bs, c |-> c]
IsLeaf(t) == t.c = <<>>
RECURSIVE Made(_, _)
\* The leaf at k has the bytes k + 1, k + 2, ...
Made(t, k) ==
  IF t.c = <<>> THEN Leaf([i \in 1..t.z |-> k + i])
  ELSE LET at(i) == k + FoldLeft(LAMBDA a, x : a + Zs(x), 0, SubSeq(t.c, 1, i - 1))
       IN  Node([i \in 1..Len(t.c) |-> Zs(t.c[i])], [i \in 1..Len(t.c) |-> Made(t.c[i], at(i))])
RECURSIVE Content(_)
Content(t) == IF IsLeaf(t) THEN t.d ELSE FoldLeft(LAMBDA a, x : a \o Content(x), <<>>, t.c)
Size(t) == IF IsLeaf(t) THEN Len(t.d) ELSE Sum(t.bs)

(* Overwriting: [t, buf: bytes that are left, puts: blocks stored].        *)
RECURSIVE Modify(_, _, _)
RECURSIVE ModKids(_, _, _, _, _)
ModKids(t, i, cur, off, r) ==
  IF i > Len(t.c) THEN r
  ELSE IF cur + t.bs[i] > off
       THEN LET k == Modify(t.c[i], off - cur, r.buf)
                q == [t |-> [r.t EXCEPT !.c[i] = k.t], buf |-> k.buf, puts |-> r.puts \o k.puts]
            IN  IF k.buf = <<>> \/ Flaw = "first" THEN q
                ELSE ModKids(t, i + 1, cur + t.bs[i], IF Flaw = "offset" THEN off ELSE cur + t.bs[i], q)
       ELSE ModKids(t, i + 1, cur + t.bs[i], off, r)
Modify(t, off, buf) ==
  IF IsLeaf(t)
  THEN LET n == IF Len(buf) < Len(t.d) - off THEN Len(buf) ELSE Len(t.d) - off
           x == Leaf([i \in 1..Len(t.d) |-> IF i > off /\ i <= off + n THEN buf[i - off] ELSE t.d[i]])
       IN  [t |-> x, buf |-> SubSeq(buf, n + 1, Len(buf)), puts |-> <<x>>]
  ELSE LET r == ModKids(t, 1, 0, off, [t |-> t, buf |-> buf, puts |-> <<>>])
       IN  [r EXCEPT !.puts = Append(@, r.t)]

(* Truncating to less than there is.                                       *)
RECURSIVE Shorten(_, _)
RECURSIVE Child(_, _, _, _)
\* The child in which byte number size is: <<its number, bytes before it>>
Child(t, size, i, cur) ==
  IF size < cur + Size(t.c[i]) THEN <<i, cur>> ELSE Child(t, size, i + 1, cur + Size(t.c[i]))
Shorten(t, size) ==
  IF IsLeaf(t) THEN [t |-> Leaf(SubSeq(t.d, 1, size)), puts |-> <<>>]
  ELSE LET x == Child(t, size, 1, 0)
           i == x[1]
           k == Shorten(t.c[i], size - x[2])
           n == IF Flaw = "size" THEN Size(t.c[i]) ELSE size - x[2]
       IN  [t |-> Node(Append([j \in 1..(i-1) |-> Size(t.c[j])], n), Append(SubSeq(t.c, 1, i - 1), k.t)),
            puts |-> IF Flaw = "late" THEN <<k.t>> \o k.puts ELSE Append(k.puts, k.t)]

VARIABLES tree, was, op, puts, hist
vars == <<tree, was, op, puts, hist>>

RECURSIVE Shape(_)
Shape(t) == IF IsLeaf(t) THEN Len(t.d) ELSE [i \in 1..Len(t.c) |-> Shape(t.c[i])]

Init == /\ \E s \in Shapes : tree = Made(s, 0)
        /\ was = tree /\ op = <<"none">> /\ puts = <<>>
        /\ hist = <<(<<"T", Shape(tree)>>)>>

Fresh(n) == [i \in 1..n |-> 100 * Len(hist) + i]
Write(off, n) ==
  /\ LET r == Modify(tree, off, Fresh(n))
     IN  tree' = r.t /\ puts' = r.puts /\ op' = <<"Write", off, Fresh(n), r.buf>>
  /\ hist' = Append(hist, <<"WriteAt", n, off>>)
Truncate(size) ==
  /\ size < Len(Content(tree))
  /\ LET r == Shorten(tree, size)
     IN  tree' = r.t /\ puts' = Append(r.puts, r.t) /\ op' = <<"Truncate", size>>
  /\ hist' = Append(hist, <<"Truncate", size>>)
Next == /\ Len(hist) <= Edits
        /\ was' = tree
        /\ \/ \E off \in 0..Len(Content(tree)) : \E n \in 1..(Len(Content(tree)) - off + 1) : Write(off, n)
           \/ \E size \in 0..(Len(Content(tree)) - 1) : Truncate(size)
        /\ Emit => PrintT("GEN" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

(* C08 *)
Edited == LET c0 == Content(was) IN LET c1 == Content(tree) IN
  CASE op[1] = "Write" ->
         LET n == Len(op[3]) - Len(op[4]) IN
         /\ c1 = Overlay(c0, op[2], SubSeq(op[3], 1, n))
         \* what is left goes after the end
         /\ op[4] # <<>> => op[2] + n = Len(c0)
         /\ op[4] = SubSeq(op[3], n + 1, Len(op[3]))
    [] op[1] = "Truncate" -> c1 = SubSeq(c0, 1, op[2])
    [] OTHER -> TRUE
(* C07 *)
RECURSIVE Sized(_)
Sized(t) == IF IsLeaf(t) THEN t.bs = <<>>
            ELSE /\ Len(t.bs) = Len(t.c)
                 /\ \A i \in 1..Len(t.c) : t.bs[i] = Len(Content(t.c[i])) /\ Sized(t.c[i])
Sizes == Sized(tree)
(* C20: only the leaves in the range that is written get new blocks        *)
RECURSIVE Leaves(_, _)
Leaves(t, k) == IF IsLeaf(t) THEN {<<k, t.d>>}
                ELSE UNION {Leaves(t.c[i], k + Sum(SubSeq(t.bs, 1, i - 1))) : i \in 1..Len(t.c)}
Kept == LET a == Leaves(was, 0) IN LET b == Leaves(tree, 0) IN
  CASE op[1] = "Write" -> \A x \in a : (x[1] + Len(x[2]) <= op[2] \/ x[1] >= op[2] + Len(op[3])) => x \in b
    [] op[1] = "Truncate" -> \A x \in a : x[1] + Len(x[2]) <= op[2] /\ x[2] # <<>> => x \in b
    [] OTHER -> TRUE
(* C10: who starts from a whole tree never has a node without its children *)
RECURSIVE Blocks(_)
Blocks(t) == {t} \cup UNION {Blocks(t.c[i]) : i \in 1..Len(t.c)}
ChildrenFirst == \A i \in 1..Len(puts) : \A j \in 1..Len(puts[i].c) :
                   puts[i].c[j] \in Blocks(was) \cup {puts[k] : k \in 1..(i-1)}
Stored == puts # <<>> => puts[Len(puts)] = tree
=============================================================================
