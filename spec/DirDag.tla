------------------------------- MODULE DirDag -------------------------------
(* A sharded directory of any shape (C29).                                   *)
(*                                                                           *)
(* A shard is [k |-> "shard", lg, id, slots]: lg is the logarithm of its     *)
(* width, and a slot is [b, k, n, v, c]: at bit b an entry (k = "val": name  *)
(* n, value v), a sub-shard (k = "sub": c) or a link whose name is too short *)
(* (k = "inv").  A sub-shard that is missing or isn't a shard is             *)
(* [k |-> "broken", ...].  h[n] is the hash of a name, a sequence of 64 bits.*)
(* Nothing says that entries are where their hash leads, that sub-shards     *)
(* have entries, or that shards are of the same width.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bits == 64
NoTree == [k |-> "none", lg |-> 0, id |-> 0, slots |-> <<>>]
Val(b, n, v) == [b |-> b, k |-> "val", n |-> n, v |-> v, c |-> NoTree]

Dig(bits, used, lg) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, SubSeq(bits, used + 1, used + lg))

\* The number of the slot at bit b, 0 if there is none.
Slot(t, b) == LET S == {i \in 1..Len(t.slots) : t.slots[i].b = b} IN
              IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Drop(t, i) == [t EXCEPT !.slots = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Insert(t, s) == LET k == Cardinality({i \in 1..Len(t.slots) : t.slots[i].b < s.b}) IN
                [t EXCEPT !.slots = SubSeq(@, 1, k) \o <<s>> \o SubSeq(@, k + 1, Len(@))]

\* Whether the way of a name goes on in a shard where `used` bits are used up.
Leads(t, used, lim) == t.k = "shard" /\ used + t.lg <= lim

RECURSIVE Look(_, _, _, _, _)
(* Looking up n: [r |-> "nil"/"notexist"/"other", v].                        *)
Look(t, h, n, used, lim) ==
  IF ~Leads(t, used, lim) THEN [r |-> "other", v |-> 0]
  ELSE LET i == Slot(t, Dig(h[n], used, t.lg)) IN
    IF i = 0 THEN [r |-> "notexist", v |-> 0]
    ELSE LET s == t.slots[i] IN
      CASE s.k = "inv" -> [r |-> "other", v |-> 0]
        [] s.k = "val" -> IF s.n = n THEN [r |-> "nil", v |-> s.v] ELSE [r |-> "notexist", v |-> 0]
        [] s.k = "sub" -> Look(s.c, h, n, used + t.lg, lim)

RECURSIVE Add(_, _, _, _, _, _)
(* Adding n with value v: [ok, t].  An entry in its way goes on by its own   *)
(* hash, to a new sub-shard of the same width.                               *)
Add(t, h, n, v, used, lim) ==
  IF ~Leads(t, used, lim) THEN [ok |-> FALSE, t |-> t]
  ELSE LET b == Dig(h[n], used, t.lg)
           i == Slot(t, b) IN
    IF i = 0 THEN [ok |-> TRUE, t |-> Insert(t, Val(b, n, v))]
    ELSE LET s == t.slots[i] IN
      CASE s.k = "inv" -> [ok |-> FALSE, t |-> t]
        [] s.k = "val" /\ s.n = n -> [ok |-> TRUE, t |-> [t EXCEPT !.slots[i].v = v]]
        [] s.k = "val" /\ s.n # n ->
             LET new == [t EXCEPT !.slots = <<>>]
                 r1 == Add(new, h, n, v, used + t.lg, lim)
                 r2 == Add(r1.t, h, s.n, s.v, used + t.lg, lim) IN
             IF r1.ok /\ r2.ok
             THEN [ok |-> TRUE, t |-> [t EXCEPT !.slots[i] = [b |-> b, k |-> "sub", n |-> 0, v |-> 0, c |-> r2.t]]]
             ELSE [ok |-> FALSE, t |-> t]
        [] s.k = "sub" ->
             LET r == Add(s.c, h, n, v, used + t.lg, lim) IN
             IF r.ok THEN [ok |-> TRUE, t |-> [t EXCEPT !.slots[i].c = r.t]] ELSE [ok |-> FALSE, t |-> t]

RECURSIVE Del(_, _, _, _, _)
(* Removing n: [r, t].  A sub-shard it was removed from disappears when it   *)
(* has nothing left, and is replaced by what it has when that is an entry.   *)
Del(t, h, n, used, lim) ==
  IF ~Leads(t, used, lim) THEN [r |-> "other", t |-> t]
  ELSE LET b == Dig(h[n], used, t.lg)
           i == Slot(t, b) IN
    IF i = 0 THEN [r |-> "notexist", t |-> t]
    ELSE LET s == t.slots[i] IN
      CASE s.k = "inv" -> [r |-> "other", t |-> t]
        [] s.k = "val" -> IF s.n = n THEN [r |-> "nil", t |-> Drop(t, i)] ELSE [r |-> "notexist", t |-> t]
        [] s.k = "sub" ->
             LET d == Del(s.c, h, n, used + t.lg, lim)
                 c == d.t.slots IN
             IF d.r # "nil" THEN [r |-> d.r, t |-> t]
             ELSE IF c = <<>> THEN [r |-> "nil", t |-> Drop(t, i)]
             ELSE IF Len(c) = 1 /\ c[1].k = "val"
                  THEN [r |-> "nil", t |-> [t EXCEPT !.slots[i] = Val(b, c[1].n, c[1].v)]]
             ELSE [r |-> "nil", t |-> [t EXCEPT !.slots[i].c = d.t]]

RECURSIVE List(_)
(* The entries in the order of the shards' links, up to what can't be        *)
(* listed: [ok, es], es: <<name, value>>.                                    *)
List(t) ==
  IF t.k # "shard" THEN [ok |-> FALSE, es |-> <<>>]
  ELSE FoldLeft(LAMBDA a, s :
         IF ~a.ok THEN a
         ELSE CASE s.k = "inv" -> [a EXCEPT !.ok = FALSE]
                [] s.k = "val" -> [a EXCEPT !.es = Append(@, <<s.n, s.v>>)]
                [] s.k = "sub" -> LET l == List(s.c) IN [ok |-> l.ok, es |-> a.es \o l.es],
         [ok |-> TRUE, es |-> <<>>], t.slots)

RECURSIVE All(_)
\* All entries, also those behind what can't be listed.
All(t) ==
  IF t.k # "shard" THEN <<>>
  ELSE FoldLeft(LAMBDA a, s : a \o (CASE s.k = "inv" -> <<>>
                                      [] s.k = "val" -> << <<s.n, s.v>> >>
                                      [] s.k = "sub" -> All(s.c)), <<>>, t.slots)

Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Within(a, b) == \A x \in ToSet(a) : Count(a, x) <= Count(b, x)
Same(a, b) == Len(a) = Len(b) /\ Within(a, b)

RECURSIVE Sound(_)
\* All of it is there and sound.
Sound(t) == t.k = "shard" /\ \A i \in 1..Len(t.slots) :
              t.slots[i].k = "val" \/ (t.slots[i].k = "sub" /\ Sound(t.slots[i].c))
RECURSIVE HasInv(_)
HasInv(t) == t.k = "shard" /\ \E i \in 1..Len(t.slots) :
               t.slots[i].k = "inv" \/ (t.slots[i].k = "sub" /\ HasInv(t.slots[i].c))
=============================================================================
