------------------------------ MODULE DirShape ------------------------------
(***************************************************************************)
(* Editing and looking at a sharded directory of any shape: what DirDag.tla*)
(* says (C29) against what a user expects of it.  Every edit changes the   *)
(* entry it is about and no other, also where entries aren't where their   *)
(* hash leads, shards are empty or have a single entry, or parts are       *)
(* missing; what could be found is found; what isn't there is kept as it   *)
(* is; and a canonical trie (Hamt.tla) remains canonical.                  *)
(*                                                                         *)
(* Also generates histories: a directory and operations on it.             *)
(***************************************************************************)
EXTENDS DirDag, Json, TLC

H == INSTANCE Hamt

CONSTANTS Deep, MaxOps, Flaw, Emit

Dg == << <<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<1,0,0>> >>
Ns == 1..Len(Dg)
Lim == 3        \* bits of a hash, one for each level

Sh(sl) == [k |-> "shard", lg |-> 1, id |-> 0, slots |-> sl]
Bro == [k |-> "broken", lg |-> 0, id |-> 1, slots |-> <<>>]
SubT(b, c) == [b |-> b, k |-> "sub", n |-> 0, v |-> 0, c |-> c]

\* What may be at a bit: sequences of no or one slot.
Vals(b, S) == {<<>>} \cup {<<Val(b, n, 1)>> : n \in S}
Subs(b, C) == {<<SubT(b, c)>> : c \in C}
Two(A, B) == {Sh(x \o y) : x \in A, y \in B}

Some(b, S) == Vals(b, S) \cup Subs(b, {Sh(<<>>), Bro})
S3 == IF Deep THEN Two(Vals(0, Ns), Vals(1, Ns)) \cup {Bro}
      ELSE {Sh(<<>>), Sh(<<Val(0, 1, 1)>>), Sh(<<Val(0, 1, 1), Val(1, 2, 1)>>), Sh(<<Val(1, 3, 1)>>), Bro}
S2 == IF Deep THEN Two(Vals(0, Ns) \cup Subs(0, S3), Vals(1, Ns) \cup Subs(1, S3))
      ELSE Two(Vals(0, {1, 3}) \cup Subs(0, S3), Some(1, Ns))
S1 == IF Deep THEN Two(Vals(0, Ns) \cup Subs(0, S2), Some(1, Ns) \cup Subs(1, {Sh(<<Val(0, 4, 1)>>)}))
      ELSE Two(Some(0, {1, 4}) \cup Subs(0, S2), Vals(1, {4}) \cup Subs(1, {Bro}))

VARIABLES t,     \* the directory
          did,   \* the last operation and its outcome
          hist
vars == <<t, did, hist>>

Nothing == [op |-> "none", n |-> 0, r |-> "", v |-> 0]
Init == \E x \in S1 : t = x /\ did = Nothing /\ hist = <<(<<"T", Dg, x>>)>>

\* With a flaw, for the check of the check.
RECURSIVE FDel(_, _, _)
FDel(x, n, used) ==
  LET d == Del(x, Dg, n, used, Lim)
      i == Slot(x, Dig(Dg[n], used, 1)) IN
  IF Flaw = "none" \/ d.r # "nil" \/ x.slots[i].k # "sub" THEN d
  ELSE LET c == FDel(x.slots[i].c, n, used + 1)
           with == [x EXCEPT !.slots[i].c = c.t]
           one == IF Len(c.t.slots) = 1 THEN c.t.slots[1] ELSE Val(0, 0, 0) IN
       CASE Flaw = "lifted" /\ Len(c.t.slots) = 1 ->
              \* whatever is left alone moves up
              [r |-> "nil", t |-> [x EXCEPT !.slots[i] = [one EXCEPT !.b = x.slots[i].b]]]
         [] Flaw = "pruned" /\ Len(c.t.slots) = 1 /\ one.k = "sub" ->
              [r |-> "nil", t |-> Drop(x, i)]
         [] Flaw = "kept" -> [r |-> "nil", t |-> with]
         [] OTHER -> d
FAdd(x, n, v) ==
  LET a == Add(x, Dg, n, v, 0, Lim) IN
  IF Flaw = "ousted" /\ a.ok /\ Look(x, Dg, n, 0, Lim).r = "notexist" /\ Len(All(a.t)) > 2
  THEN LET i == Slot(x, Dig(Dg[n], 0, 1)) IN
       IF i > 0 /\ x.slots[i].k = "val" THEN [ok |-> TRUE, t |-> [x EXCEPT !.slots[i] = Val(@.b, n, v)]] ELSE a
  ELSE a

More == MaxOps = 0 \/ Len(hist) <= MaxOps
Did(h) == hist' = Append(hist, h) /\ (IF Emit THEN PrintT("GEN" \o ToJson(hist')) ELSE TRUE)

DoAdd(n) == LET r == FAdd(t, n, 2) IN
  More /\ t' = r.t /\ did' = [op |-> "Add", n |-> n, r |-> IF r.ok THEN "nil" ELSE "other", v |-> 2] /\ Did(<<"Add", n>>)
DoDel(n) == LET r == FDel(t, n, 0) IN
  More /\ t' = r.t /\ did' = [op |-> "Remove", n |-> n, r |-> r.r, v |-> 0] /\ Did(<<"Remove", n>>)
DoLook(n) == LET r == Look(t, Dg, n, 0, Lim) IN
  More /\ t' = t /\ did' = [op |-> "Find", n |-> n, r |-> r.r, v |-> r.v] /\ Did(<<"Find", n>>)
DoList == More /\ t' = t /\ did' = [op |-> "List", n |-> 0, r |-> IF List(t).ok THEN "nil" ELSE "other", v |-> 0] /\ Did(<<"List", 1>>)
DoNode == More /\ t' = t /\ did' = [op |-> "Node", n |-> 0, r |-> "nil", v |-> 0] /\ Did(<<"Node", 1>>)

Next == (\E n \in Ns : DoAdd(n) \/ DoDel(n) \/ (Emit /\ DoLook(n))) \/ (Emit /\ (DoList \/ DoNode))
Spec == Init /\ [][Next]_vars
View == <<t>>
GenView == <<t, Len(hist), did.op>>
------------------------------------------------------------------------------
RECURSIVE Broken(_)
Broken(x) == IF x.k # "shard" THEN 1
             ELSE FoldLeft(LAMBDA a, s : a + IF s.k = "sub" THEN Broken(s.c) ELSE 0, 0, x.slots)
Has(x, n) == Look(x, Dg, n, 0, Lim)
\* Entries with another name.
Others(x, n) == SelectSeq(All(x), LAMBDA p : p[1] # n)
Those(x, n) == SelectSeq(All(x), LAMBDA p : p[1] = n)

RECURSIVE AsCanon(_)
\* As in Hamt.tla.
AsCanon(x) == [b \in {x.slots[i].b : i \in 1..Len(x.slots)} |->
                 LET s == x.slots[Slot(x, b)] IN
                 IF s.k = "val" THEN [val |-> TRUE, n |-> s.n] ELSE [val |-> FALSE, sub |-> AsCanon(s.c)]]
Canonical(x) == /\ Sound(x)
                /\ Cardinality({p[1] : p \in ToSet(All(x))}) = Len(All(x))
                /\ AsCanon(x) = H!Canon({p[1] : p \in ToSet(All(x))}, Dg, 0, 1)

Edits ==
  [][LET o == did'.op n == did'.n r == did'.r IN
     o \in {"Add", "Remove"} =>
       \* a failed one changes nothing
       /\ r # "nil" => t' = t
       \* an edit is about one entry
       /\ r = "nil" => /\ Same(Others(t, n), Others(t', n))
                       /\ Broken(t') = Broken(t)
                       /\ \A m \in Ns \ {n} : Has(t, m).r = "nil" => Has(t', m) = Has(t, m)
       /\ (o = "Add" /\ r = "nil") =>
            /\ Has(t', n) = [r |-> "nil", v |-> 2]
            /\ Len(Those(t', n)) = Len(Those(t, n)) + (IF Has(t, n).r = "nil" THEN 0 ELSE 1)
       /\ (o = "Remove" /\ r = "nil") =>
            /\ Has(t, n).r = "nil"
            /\ Len(Those(t', n)) = Len(Those(t, n)) - 1
       /\ (o = "Remove" /\ r # "nil") => Has(t, n).r = r
       /\ (Canonical(t) /\ r = "nil") => Canonical(t')]_vars
Lists == LET w == List(t) IN /\ w.ok = Sound(t)
                             /\ (w.ok => Same(w.es, All(t)))
                             /\ Within(w.es, All(t))
                             /\ \A n \in Ns : Has(t, n).r = "nil" => \E p \in ToSet(All(t)) : p = <<n, Has(t, n).v>>
=============================================================================
