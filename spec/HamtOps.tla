------------------------------- MODULE HamtOps -------------------------------
(***************************************************************************)
(* How a HAMT works: shards in memory, whose children are entries, loaded  *)
(* sub-shards, or links to stored shards which are loaded when they are    *)
(* needed; insertion forks an entry in the way into a sub-shard, removal   *)
(* collapses a sub-shard with a single entry left; serializing stores what *)
(* is loaded, children first.  Fetches and stores fail.                    *)
(*                                                                         *)
(* Checked: the trie is always the canonical one of the entries (Hamt.tla, *)
(* C12), these are those of a map (C11), also after failures (C14), and    *)
(* the store is closed under children (C10).                               *)
(*                                                                         *)
(* Also generates histories: one per transition, the loaded parts of the   *)
(* trie being part of the state.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Values,    \* values of entries
          Pattern,   \* which digits the names have
          Flaw, Emit

Patterns == << <<(<<0,0,0>>), <<0,0,1>>, <<0,1,0>>, <<1,0,0>>>>,
               <<(<<0,0,0>>), <<0,0,1>>, <<0,0,2>>, <<0,1,1>>>>,
               <<(<<0,0,0>>), <<0,0,1>>, <<0,1,0>>, <<1,0,0>>, <<1,1,0>>>>,
               <<(<<0,0,0>>), <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,1,1>>, <<1,0,0>>>> >>
Dg == Patterns[Pattern]
Ns == 1..Len(Dg)

VARIABLES root,    \* the shard in memory
          map,     \* what it should be
          put,     \* shards that were just stored, in order
          saved,   \* <<>> or <<map, stored shard>>: the last one that was stored in full
          ans, hist
vars == <<root, map, put, saved, ans, hist>>
View == <<root, map, saved, put>>
GenView == <<root, IF saved = <<>> THEN 0 ELSE 1>>

(* A shard is a function from digits to slots:                             *)
V(n, v) == [k |-> "val", n |-> n, v |-> v]     \* an entry
L(n, v) == [k |-> "vlnk", n |-> n, v |-> v]    \* the same, as a link
Sub(c)  == [k |-> "sub", c |-> c]              \* a loaded sub-shard
SL(c)   == [k |-> "slnk", c |-> c]             \* a link to a stored one

Put(sh, d, x) == [j \in (DOMAIN sh) \cup {d} |-> IF j = d THEN x ELSE sh[j]]
Del(sh, d)    == [j \in (DOMAIN sh) \ {d} |-> sh[j]]

RECURSIVE Stored(_)
\* A shard as it is stored: entries and sub-shards only.
Stored(sh) == [d \in DOMAIN sh |->
                 CASE sh[d].k \in {"val", "vlnk"} -> V(sh[d].n, sh[d].v)
                   [] sh[d].k = "sub"  -> Sub(Stored(sh[d].c))
                   [] sh[d].k = "slnk" -> Sub(sh[d].c)]
Loaded(st) == [d \in DOMAIN st |->
                 IF st[d].k = "val" THEN L(st[d].n, st[d].v) ELSE SL(st[d].c)]

Digit(n, l) == Dg[n][l]

\* A child, loaded; b: from this level on, shards can't be fetched.
Load(x, l, b) == CASE x.k = "vlnk" -> <<V(x.n, x.v), TRUE>>
                   [] x.k = "slnk" -> IF l >= b THEN <<x, FALSE>> ELSE <<Sub(Loaded(x.c)), TRUE>>
                   [] OTHER -> <<x, TRUE>>

R(sh, old, err) == [sh |-> sh, old |-> old, err |-> err]
Nil == [x \in {} |-> 0]

RECURSIVE Swap(_, _, _, _, _)
\* v = 0: remove.  The result has the shard, the old value and the outcome.
Swap(sh, n, v, l, b) ==
  LET d == Digit(n, l) IN
  IF d \notin DOMAIN sh THEN
    IF v = 0 THEN R(sh, 0, "notexist") ELSE R(Put(sh, d, L(n, v)), 0, "nil")
  ELSE
    LET ld == Load(sh[d], l, b) IN
    IF ~ld[2] THEN R(sh, 0, "fault")
    ELSE LET ch == ld[1]
             s1 == Put(sh, d, ch) IN
      IF ch.k = "val" THEN
        IF ch.n = n THEN R(IF v = 0 THEN Del(s1, d) ELSE Put(s1, d, V(n, v)), ch.v, "nil")
        ELSE IF v = 0 THEN R(s1, 0, "notexist")
        ELSE LET f1 == Swap(Nil, n, v, l + 1, b)
                 f2 == Swap(f1.sh, ch.n, ch.v, l + 1, b)
             IN  R(Put(s1, d, Sub(f2.sh)), 0, "nil")
      ELSE LET r == Swap(ch.c, n, v, l + 1, b) IN
        IF r.err # "nil" THEN R(Put(s1, d, Sub(r.sh)), 0, r.err)
        ELSE LET s2 == Put(s1, d, Sub(r.sh)) IN
          IF v # 0 \/ Cardinality(DOMAIN r.sh) > 1 \/ Flaw = "nocollapse" THEN R(s2, r.old, "nil")
          ELSE IF DOMAIN r.sh = {} THEN R(Del(s2, d), r.old, "nil")
          ELSE LET x == r.sh[CHOOSE j \in DOMAIN r.sh : TRUE] IN
               IF x.k = "val" \/ (x.k = "vlnk" /\ Flaw # "loadedonly")
               THEN R(Put(s2, d, x), r.old, "nil")
               ELSE R(s2, r.old, "nil")

RECURSIVE Find(_, _, _, _)
Find(sh, n, l, b) ==
  LET d == Digit(n, l) IN
  IF d \notin DOMAIN sh THEN R(sh, 0, "notexist")
  ELSE LET ld == Load(sh[d], l, b) IN
       IF ~ld[2] THEN R(sh, 0, "fault")
       ELSE LET s1 == Put(sh, d, ld[1]) IN
            IF ld[1].k = "val" THEN
              IF ld[1].n = n THEN R(s1, ld[1].v, "nil") ELSE R(s1, 0, "notexist")
            ELSE LET r == Find(ld[1].c, n, l + 1, b) IN R(Put(s1, d, Sub(r.sh)), r.old, r.err)

RECURSIVE PostOrder(_)
\* What serializing stores, in order: loaded shards, from the leaves.
PostOrder(sh) ==
  LET subs == SetToSeq({d \in DOMAIN sh : sh[d].k = "sub"})
      below == FoldLeft(LAMBDA a, d : a \o PostOrder(sh[d].c), <<>>, subs)
  IN  IF Flaw = "rootfirst" THEN <<Stored(sh)>> \o below ELSE below \o <<Stored(sh)>>

RECURSIVE AllLoaded(_)
AllLoaded(sh) == [d \in DOMAIN sh |->
                    CASE sh[d].k = "slnk" -> Sub(AllLoaded(Loaded(sh[d].c)))
                      [] sh[d].k = "sub"  -> Sub(AllLoaded(sh[d].c))
                      [] OTHER -> sh[d]]

------------------------------------------------------------------------------
None == [n \in Ns |-> 0]
Init == root = Nil /\ map = None /\ put = <<>> /\ saved = <<>> /\ ans = R(Nil, 0, "nil") /\ hist = <<>>

Faults == {99, 1, 2}

Say(o) == /\ hist' = Append(hist, o)
          /\ Emit => PrintT("GEN" \o ToJson(<<(<<"H", Dg>>)>> \o hist'))

Edit(n, v, b) ==
  LET r == Swap(root, n, v, 1, b) IN
  /\ root' = r.sh
  /\ map' = IF r.err = "nil" THEN [map EXCEPT ![n] = v] ELSE map
  /\ ans' = [R(Nil, r.old, r.err) EXCEPT !.sh = <<"swap", n, v>>]
  /\ put' = <<>> /\ UNCHANGED saved
  /\ Say(IF v = 0 THEN <<"Remove", n>> ELSE <<"Add", n, v>>)

Look(n, b) ==
  LET r == Find(root, n, 1, b) IN
  /\ root' = r.sh
  /\ ans' = [R(Nil, r.old, r.err) EXCEPT !.sh = <<"find", n>>]
  /\ put' = <<>> /\ UNCHANGED <<map, saved>>
  /\ Say(<<"Find", n>>)

\* k blocks are stored, and then all is done or a store fails.
Serialize(k) ==
  LET po == PostOrder(root) IN
  /\ k <= Len(po)
  /\ put' = SubSeq(po, 1, k)
  /\ saved' = IF k = Len(po) THEN <<map, Stored(root)>> ELSE saved
  /\ ans' = R(<<"node">>, 0, IF k = Len(po) THEN "nil" ELSE "fault")
  /\ UNCHANGED <<root, map>>
  /\ Say(<<"Node">>)

Reload ==
  /\ saved # <<>>
  /\ root' = Loaded(saved[2]) /\ map' = saved[1]
  /\ ans' = R(<<"load">>, 0, "nil")
  /\ put' = <<>> /\ UNCHANGED saved
  /\ Say(<<"Reload">>)

Next == \/ \E n \in Ns, v \in {0} \cup Values, b \in IF Emit THEN {99} ELSE Faults : Edit(n, v, b)
        \/ \E n \in Ns, b \in IF Emit THEN {99} ELSE Faults : Look(n, b)
        \/ \E k \in 0..8 : (Emit => k = Len(PostOrder(root))) /\ Serialize(k)
        \/ IF Emit THEN saved # <<>> /\ saved[1] = map /\ Reload ELSE Reload
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Dom == {n \in Ns : map[n] # 0}
RECURSIVE Canon(_, _)
\* As in Hamt.tla, with the values.
Canon(S, l) ==
  [d \in {Digit(n, l) : n \in S} |->
     LET G == {n \in S : Digit(n, l) = d} IN
     IF Cardinality(G) = 1 THEN LET n == CHOOSE n \in G : TRUE IN V(n, map[n])
     ELSE Sub(Canon(G, l + 1))]

Canonical == Stored(root) = Canon(Dom, 1)
(* A shard that is stored has its sub-shards in the store: those that were  *)
(* not loaded are there (they are reached through links), the others have   *)
(* to be stored before.                                                     *)
RECURSIVE Linked(_)
Linked(sh) == UNION {CASE sh[d].k = "slnk" -> {sh[d].c}
                       [] sh[d].k = "sub"  -> Linked(sh[d].c)
                       [] OTHER -> {} : d \in DOMAIN sh}
ChildrenFirst ==
  \A i \in 1..Len(put) : \A d \in DOMAIN put[i] :
    put[i][d].k = "sub" => \/ put[i][d].c \in Linked(root)
                           \/ \E j \in 1..(i - 1) : put[j] = put[i][d].c

Answers ==
  [][LET a == ans' IN
     CASE a.sh[1] = "swap" ->
            CASE a.err = "nil"      -> a.old = map[a.sh[2]] /\ (a.sh[3] = 0 => a.old # 0)
              [] a.err = "notexist" -> a.sh[3] = 0 /\ map[a.sh[2]] = 0
              [] OTHER -> TRUE
       [] a.sh[1] = "find" ->
            CASE a.err = "nil"      -> a.old = map[a.sh[2]] /\ a.old # 0
              [] a.err = "notexist" -> map[a.sh[2]] = 0
              [] OTHER -> TRUE
       [] OTHER -> TRUE]_vars
\* A failure is one of the store, and repeating the operation without it
\* gives what the operation would have given.
Retry == [][ans'.err = "fault" /\ ans'.sh[1] = "swap" =>
              LET r == Swap(root', ans'.sh[2], ans'.sh[3], 1, 99)
                  r0 == Swap(root, ans'.sh[2], ans'.sh[3], 1, 99)
              IN  r.err = r0.err /\ r.old = r0.old /\ Stored(r.sh) = Stored(r0.sh)]_vars
==============================================================================
