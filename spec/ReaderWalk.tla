----------------------------- MODULE ReaderWalk -----------------------------
(***************************************************************************)
(* How a DagReader works: it walks the tree of the file, depth first, with *)
(* a stack of nodes and of child indices; the leaf it is in is kept in a   *)
(* buffer; seeking starts again from the root and skips children by their  *)
(* recorded sizes.  Each step of the walk is a step here, and each fetch   *)
(* of a child may fail, there and then or because it had been requested    *)
(* ahead.                                                                  *)
(*                                                                         *)
(* Checked: each call, when it ends, is one that DagReader.tla allows      *)
(* (C05, C06), whatever happened before; and the walk is always where the  *)
(* position says (InSync), which is why.                                   *)
(*                                                                         *)
(* Also generates histories: one per transition between calls.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Deep,       \* more trees
          MaxFaults,  \* failures of fetches
          MaxCalls,   \* 0: any number
          Flaw,       \* "none", or a mistake that has to be found
          Emit        \* print histories

(* Trees: sizes first, then with the bytes numbered.                       *)
L(n) == [z |-> n, c |-> <<>>]
N(cs) == [z |-> -1, c |-> cs]
T0 == {L(0), L(1), L(2)}
T1 == {N(<<a, b>>) : a, b \in T0}
T2 == {N(<<a, b>>) : a \in {L(1), N(<<L(1), L(1)>>), N(<<L(2), L(0)>>), N(<<N(<<L(1)>>), L(1)>>)},
                     b \in {L(0), L(2), N(<<L(2)>>), N(<<L(0), L(1)>>)}}
Trees == IF Deep THEN T0 \cup T1 \cup T2 \cup {N(<<a, b, c>>) : a, b, c \in T0}
         ELSE {L(0), L(2), N(<<L(2), L(1)>>), N(<<L(0), L(1)>>), N(<<L(1), L(0), L(2)>>),
               N(<<N(<<L(1), L(1)>>), N(<<L(2)>>)>>), N(<<L(1), N(<<L(0), L(1)>>)>>)}

RECURSIVE Zs(_)
Zs(t) == IF t.c = <<>> THEN t.z ELSE FoldLeft(LAMBDA a, x : a + Zs(x), 0, t.c)
RECURSIVE Number(_, _)
\* The leaf at k has the bytes k + 1, k + 2, ...
Number(t, k) ==
  IF t.c = <<>> THEN [d |-> [i \in 1..t.z |-> k + i], z |-> t.z, c |-> <<>>]
  ELSE [d |-> <<>>, z |-> Zs(t),
        c |-> [i \in 1..Len(t.c) |-> Number(t.c[i], k + FoldLeft(LAMBDA a, x : a + Zs(x), 0, SubSeq(t.c, 1, i - 1)))]]

VARIABLES tree,
          path, idx,     \* the walk: nodes and next children; <<>> before the root
          buf,           \* <<>> or <<what is left of the leaf>>
          off,           \* position
          op,            \* the call in progress
          ans,           \* the last answer
          owed, flt,     \* failed requests to be reported, failures so far
          hist,
          \* what DagReader.tla sees
          apos, debt, afl
vars == <<tree, path, idx, buf, off, op, ans, owed, flt, hist, apos, debt, afl>>
Walk == <<path, idx, buf, off>>
Ghost == <<apos, debt, afl>>

RECURSIVE Content(_)
Content(t) == IF t.c = <<>> THEN t.d ELSE FoldLeft(LAMBDA a, x : a \o Content(x), <<>>, t.c)
Size == tree.z

A == INSTANCE DagReader WITH data <- Content(tree), pos <- apos, depth <- 2, faults <- afl

Idle == [k |-> "idle"]
None == [k |-> "none"]
Init == /\ \E t \in Trees : tree = Number(t, 0)
        /\ path = <<>> /\ idx = <<>> /\ buf = <<>> /\ off = 0 /\ op = Idle /\ ans = None
        /\ owed = 0 /\ flt = 0 /\ hist = <<>> /\ apos = 0 /\ debt = 0 /\ afl = 0

------------------------------------------------------------------------------
(* Calls begin. *)
RECURSIVE Plain(_)
Plain(t) == IF t.c = <<>> THEN t.z ELSE [i \in 1..Len(t.c) |-> Plain(t.c[i])]

Begin(o, h) ==
  /\ op = Idle
  /\ MaxCalls = 0 \/ Len(hist) < MaxCalls
  /\ op' = o
  /\ hist' = Append(hist, h)
  /\ Emit => PrintT("GEN" \o ToJson(<<(<<"T", Plain(tree)>>)>> \o hist'))
  /\ UNCHANGED <<tree, ans, owed, flt, Ghost>>

BeginRead(n, full) == Begin([k |-> "read", n |-> n, full |-> full, got |-> <<>>, from |-> off, st |-> "buf"],
                            <<IF full THEN "C" ELSE "R", n>>) /\ UNCHANGED Walk
BeginWrite(lim) == Begin([k |-> "write", lim |-> lim, got |-> <<>>, from |-> off, st |-> "buf"], <<"W", lim>>)
                   /\ UNCHANGED Walk

Reset == path' = <<>> /\ idx' = <<>> /\ buf' = <<>> /\ off' = 0
BeginSeek(o, w) ==
  LET t == CASE w = 0 -> o [] w = 1 -> off + o [] w = 2 -> Size + o IN
  /\ Begin([k |-> "seek", o |-> o, w |-> w, t |-> t, left |-> t, from |-> off,
            st |-> IF t < 0 THEN "bad" ELSE IF t = off THEN "done" ELSE "walk"], <<"S", w, o>>)
  /\ IF t < 0 \/ t = off THEN UNCHANGED Walk ELSE Reset

------------------------------------------------------------------------------
(* Calls end: the abstract reader makes its step.                          *)
End(err, got, newoff, failed) ==
  /\ op' = Idle
  /\ ans' = [k |-> op.k, err |-> err, got |-> got, ret |-> newoff, f |-> flt']
  /\ apos' = newoff
  /\ afl' = flt'
  /\ debt' = IF failed THEN A!Upper(A!Debt(flt') - 1, 0) ELSE A!Debt(flt')
  /\ UNCHANGED <<tree, hist>>

Go(o) == op' = o /\ UNCHANGED <<tree, ans, hist, Ghost>>

Keep(b) == IF b = <<>> THEN <<>> ELSE <<b>>

\* k bytes of the buffer b are taken.
Take(b, k) == /\ buf' = Keep(SubSeq(b, k + 1, Len(b)))
              /\ off' = off + k

\* Bytes of the leaf (or what is left of it) b are handed over.
Deliver(b) ==
  CASE op.k = "read" ->
         LET k == A!Lower(op.n - Len(op.got), Len(b))
             g == op.got \o SubSeq(b, 1, k)
         IN  /\ Take(b, k)
             /\ IF Len(g) = op.n THEN End("nil", g, off', FALSE)
                ELSE Go([op EXCEPT !.got = g, !.st = "walk"])
    [] op.k = "write" ->
         LET k == IF op.lim < 0 THEN Len(b) ELSE A!Lower(op.lim - Len(op.got), Len(b))
             g == op.got \o SubSeq(b, 1, k)
         IN  /\ IF Flaw = "uncounted" /\ k < Len(b)
                THEN buf' = Keep(SubSeq(b, k + 1, Len(b))) /\ off' = off
                ELSE Take(b, k)
             /\ IF k < Len(b) THEN End("other", g, off', FALSE)
                ELSE Go([op EXCEPT !.got = g, !.st = "walk"])

\* The buffer first.
FromBuffer == /\ op # Idle /\ op.k \in {"read", "write"} /\ op.st = "buf"
              /\ UNCHANGED <<owed, flt>>
              /\ IF buf = <<>> THEN Go([op EXCEPT !.st = "walk"]) /\ UNCHANGED Walk
                 ELSE Deliver(buf[1]) /\ UNCHANGED <<path, idx>>

SeekDone == /\ op # Idle /\ op.k = "seek" /\ op.st \in {"bad", "done"}
            /\ UNCHANGED <<path, idx, buf, owed, flt>>
            /\ IF op.st = "bad" THEN off' = off /\ End("other", <<>>, off, FALSE)
               ELSE off' = op.t /\ End("nil", <<>>, op.t, FALSE)

\* Where seeking goes in a node: the child and what is left to skip.
RECURSIVE Skip(_, _, _)
Skip(t, i, left) ==
  IF i > Len(t.c) \/ t.c[i].z > left THEN <<i, left>> ELSE Skip(t, i + 1, left - t.c[i].z)

\* The walk gets to the node t.
Visit(t, p, ix) ==
  /\ path' = Append(p, t)
  /\ IF op.k = "seek" THEN
       IF t.c # <<>>
       THEN LET s == Skip(t, 1, op.left)
            IN  /\ idx' = Append(ix, s[1])
                /\ Go([op EXCEPT !.left = s[2]])
                /\ UNCHANGED <<buf, off>>
       ELSE /\ idx' = Append(ix, 1)
            /\ buf' = <<SubSeq(t.d, op.left + 1, Len(t.d))>>
            /\ Go([op EXCEPT !.st = "done"]) /\ UNCHANGED off
     ELSE /\ idx' = Append(ix, 1)
          /\ IF t.c # <<>> THEN Go(op) /\ UNCHANGED <<buf, off>>
             ELSE Deliver(t.d)

\* The next child, of the nearest node that has one.
RECURSIVE Forward(_, _)
Forward(p, ix) ==
  LET n == Len(p)
      j == A!Lower(ix[n] + 1, Len(p[n].c) + 1)
      ix2 == [ix EXCEPT ![n] = j]
  IN  IF j <= Len(p[n].c) THEN <<p, ix2, TRUE>>
      ELSE IF n = 1 THEN <<p, ix2, FALSE>>
      ELSE Forward(SubSeq(p, 1, n - 1), SubSeq(ix2, 1, n - 1))

Walking == op # Idle /\ op.st = "walk"
NeedsFetch == path # <<>> /\ idx[Len(path)] <= Len(path[Len(path)].c)

Step ==
  /\ Walking
  /\ UNCHANGED <<owed, flt>>
  /\ IF path = <<>> THEN Visit(tree, <<>>, <<>>)
     ELSE IF NeedsFetch THEN Visit(path[Len(path)].c[idx[Len(path)]], path, idx)
     ELSE IF op.k = "seek" THEN Go([op EXCEPT !.st = "done"]) /\ UNCHANGED Walk
     ELSE LET r == Forward(path, idx)
          IN  /\ path' = r[1] /\ idx' = r[2] /\ UNCHANGED <<buf, off>>
              /\ IF r[3] THEN Go(op)
                 ELSE End(IF op.k = "write" THEN "nil" ELSE "EOF", op.got, off, FALSE)

\* A fetch fails, or a failure from before is found out.
FetchFails ==
  /\ Walking /\ NeedsFetch
  /\ \/ owed > 0 /\ owed' = owed - 1 /\ flt' = flt
     \/ flt < MaxFaults /\ flt' = flt + 1 /\ owed' = owed
  /\ IF op.k = "seek"
     THEN /\ IF Flaw = "stray" THEN UNCHANGED Walk ELSE Reset
          /\ End("other", <<>>, off', TRUE)
     ELSE /\ IF Flaw = "skip" THEN idx' = [idx EXCEPT ![Len(path)] = @ + 1] /\ UNCHANGED <<path, buf, off>>
             ELSE UNCHANGED Walk
          \* (If the writer could have failed just there, that is what is assumed.)
          /\ End("other", op.got, off, op.k = "read" \/ op.lim # Len(op.got))

\* A request made ahead fails.
AheadFails == /\ Walking /\ flt < MaxFaults /\ flt' = flt + 1 /\ owed' = owed + 1
              /\ UNCHANGED <<tree, Walk, op, ans, hist, Ghost>>

Next == \/ \E n \in 0..3, full \in BOOLEAN : BeginRead(n, full)
        \/ \E lim \in {-1, 1} : BeginWrite(lim)
        \/ \E w \in 0..2, o \in -3..6 :
             /\ w = 0 => o \in -1..(Size + 1)
             /\ w = 1 => o \in {-2, -1, 1}
             /\ w = 2 => o \in {-Size - 1, -1, 0, 2}
             /\ off <= Size + 2
             /\ BeginSeek(o, w)
        \/ FromBuffer \/ SeekDone \/ Step \/ FetchFails \/ AheadFails
Spec == Init /\ [][Next]_vars /\ WF_vars(FromBuffer) /\ WF_vars(SeekDone) /\ WF_vars(Step)

View == <<tree, path, idx, buf, off, op, ans, owed, flt, apos, debt, afl>>
GenView == <<tree, path, idx, buf, off, op>>
------------------------------------------------------------------------------
Refines ==
  [][(op # Idle /\ op' = Idle) =>
       CASE op.k = "read"  -> A!Read(op.n, Len(ans'.got), ans'.got, ans'.err, op.full, ans'.f, FALSE)
         [] op.k = "write" -> A!WriteTo(op.lim, Len(ans'.got), ans'.got, ans'.err, ans'.f, FALSE)
         [] op.k = "seek"  -> A!Seek(op.o, op.w, ans'.ret, ans'.err, off', ans'.f, FALSE)]_vars

\* What the walk would deliver from here.
RECURSIVE Right(_, _)
Right(p, ix) ==
  IF p = <<>> THEN <<>>
  ELSE LET n == Len(p)
           i0 == IF n = Len(path) THEN ix[n] ELSE ix[n] + 1
           own == FoldLeft(LAMBDA a, x : a \o Content(x), <<>>, SubSeq(p[n].c, i0, Len(p[n].c)))
       IN  own \o Right(SubSeq(p, 1, n - 1), ix)
Ahead_ == (IF buf = <<>> THEN <<>> ELSE buf[1])
          \o (IF path = <<>> THEN Content(tree) ELSE Right(path, idx))
InSync == (op = Idle \/ op.k # "seek") => Ahead_ = SubSeq(Content(tree), off + 1, Size)

AlwaysAnswers == (op # Idle) ~> (op = Idle)
==============================================================================
