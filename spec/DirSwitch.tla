------------------------------ MODULE DirSwitch ------------------------------
(***************************************************************************)
(* How a directory decides about its representation: a single node keeps   *)
(* an estimate of its size, a HAMT counts the change of its size since it  *)
(* was loaded or made, and only when that is negative adds up the sizes of *)
(* its entries, in any order, until it knows.  Shards can fail to be       *)
(* fetched at any point.                                                   *)
(*                                                                         *)
(* Checked against Directory.tla: the counters are what they stand for,    *)
(* the kind is the one the sizes ask for (C13), an operation that fails    *)
(* changes nothing (C14), and the entries are those of the map (C11).      *)
(***************************************************************************)
EXTENDS Directory, Json, TLC

CONSTANTS Lengths,      \* which lengths names and CIDs have
          Ts,           \* thresholds
          Faults,       \* whether shards can fail to be fetched
          Flaw, Emit

Sizes == << <<(<<1, 2, 3>>), <<5, 8>>>>, <<(<<2, 2, 2, 3>>), <<5, 7>>>>, <<(<<1, 1, 4>>), <<5, 6, 9>>>> >>
NLen == Sizes[Lengths][1]
CLen == Sizes[Lengths][2]
Ns == 1..Len(NLen)
Xs == 1..Len(CLen)

VARIABLES T, k,          \* threshold and the machine
          d,             \* the specification
          err, hist
vars == <<T, k, d, err, hist>>
View == <<T, k, d, hist = <<>>>>

\* The machine: [kind, ents, est: size kept by a single node, chg: change]
Sz(n, x) == NLen[n] + CLen[x]
Old(n) == k.ents[n]
OpChange(n, x) == (IF x = 0 THEN 0 ELSE Sz(n, x)) - (IF Old(n) = 0 THEN 0 ELSE Sz(n, Old(n)))

Sum(ents, S) == FoldLeft(LAMBDA a, n : a + Sz(n, ents[n]), 0, SetToSeq({n \in S : ents[n] # 0}))
All(ents) == Sum(ents, Ns)

Entries(kk) == {n \in Ns : kk.ents[n] # 0}

(* The sizes are added up in some order, and F are the entries that can't   *)
(* be reached: the answers that are possible.                               *)
Bound == IF Flaw = "after" THEN T + 1 ELSE T
Count(n, x, F) ==
  LET c == IF Flaw = "before" THEN 0 ELSE OpChange(n, x)
      \* some set of entries that reaches the bound
      No  == All(k.ents) - Sum(k.ents, F) + c >= Bound
  IN  (IF No THEN {"no"} ELSE {})
      \cup (IF F # {} THEN {"fault"} ELSE {})
      \cup (IF F = {} /\ ~No THEN {"yes"} ELSE {})

Edited(kk, n, x) == [kk EXCEPT !.ents[n] = x]

\* A single node made of these entries, and a HAMT made of them.
Basic(ents) == [kind |-> "basic", ents |-> ents, est |-> IF Flaw = "est" THEN 0 ELSE All(ents), chg |-> 0]
Sharded(ents) == [kind |-> "hamt", ents |-> ents, est |-> 0, chg |-> 0]

BasicEdit(kk, n, x) ==
  [Edited(kk, n, x) EXCEPT !.est = @ + (IF x = 0 THEN 0 ELSE Sz(n, x))
                                     - (IF kk.ents[n] = 0 THEN 0 ELSE Sz(n, kk.ents[n]))]
HamtEdit(kk, n, x) ==
  [Edited(kk, n, x) EXCEPT !.chg = @ + (IF x = 0 THEN 0 ELSE Sz(n, x))
                                     - (IF kk.ents[n] = 0 \/ Flaw = "replaced" THEN 0 ELSE Sz(n, kk.ents[n]))]

Init == /\ T \in Ts /\ k = Basic([n \in Ns |-> 0]) /\ d = Empty(Len(NLen))
        /\ err = "nil" /\ hist = <<>>

Say(o) == /\ hist' = Append(hist, o)
          /\ Emit => PrintT("GEN" \o ToJson(<<(<<"S", NLen, CLen, IF hist = <<>> THEN T ELSE hist[1][2]>>)>> \o
                                            SubSeq(hist', 2, Len(hist'))))

(* What n -> x (x = 0: removal) does, as a set of <<machine, error>>.        *)
OnBasic(n, x) ==
  IF x = 0 THEN {IF Old(n) = 0 THEN <<k, "notexist">> ELSE <<BasicEdit(k, n, 0), "nil">>}
  ELSE IF T > 0 /\ k.est + OpChange(n, x) >= Bound
       THEN {<<HamtEdit(Sharded(k.ents), n, x), "nil">>}
       ELSE {<<BasicEdit(k, n, x), "nil">>}

Plain(n, x) == IF x = 0 /\ Old(n) = 0 THEN <<k, "notexist">> ELSE <<HamtEdit(k, n, x), "nil">>
OnHamt(n, x, F) ==
  (IF F # {} THEN {<<k, "fault">>} ELSE {}) \cup
  (IF T = 0 \/ k.chg + OpChange(n, x) >= 0 THEN {Plain(n, x)}
   ELSE LET c == Count(n, x, F) IN
        (IF "no" \in c THEN {Plain(n, x)} ELSE {}) \cup
        (IF "yes" \in c THEN {IF x = 0 /\ Old(n) = 0 THEN <<k, "notexist">>
                             ELSE <<BasicEdit(Basic(k.ents), n, x), "nil">>} ELSE {}))

Edit(n, x, F) ==
  /\ \E r \in IF k.kind = "basic" THEN OnBasic(n, x) ELSE OnHamt(n, x, F) :
       /\ k' = r[1] /\ err' = r[2]
       /\ d' = IF r[2] = "nil" THEN Set(d, n, x, T, 3, NLen, CLen) ELSE d
  /\ T' = T
  /\ Say(IF x = 0 THEN <<"Remove", n>> ELSE <<"Add", n, x>>)

Reload == /\ k' = IF k.kind = "basic" THEN Basic(k.ents) ELSE Sharded(k.ents)
          /\ d' = Reloaded(d) /\ T' = T /\ err' = "nil"
          /\ Say(<<"Reload">>)

SetT == /\ T' \in Ts \ {T} /\ UNCHANGED <<k, d>> /\ err' = "nil"
        /\ Say(<<"SetT", T'>>)

\* The threshold at the beginning is the first of the history.
Start == hist = <<>> /\ hist' = <<(<<"T", T>>)>> /\ UNCHANGED <<T, k, d, err>>

Next == IF hist = <<>> THEN Start
        ELSE \/ \E n \in Ns, x \in {0} \cup Xs, F \in IF Faults THEN SUBSET Entries(k) ELSE {{}} : Edit(n, x, F)
             \/ Reload
             \/ SetT
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
SameMap  == k.ents = d.ents
SameKind == k.kind = d.kind
Counters == IF k.kind = "basic" THEN k.est = All(k.ents) ELSE k.chg = d.net
\* What it comes to: no single node at or above the threshold is made by an
\* addition (only raising T or the switch being off leave one).
Fails    == [][err' # "nil" => k' = k]_vars
Absent   == [][err' = "notexist" => \E n \in Ns : k.ents[n] = 0]_vars
NoBigNode == [][(k'.kind = "basic" /\ k' # k /\ T' > 0 /\ All(k'.ents) > All(k.ents)) => All(k'.ents) < T']_vars
==============================================================================
