----------------------------- MODULE NodeAlias -----------------------------
(***************************************************************************)
(* Nodes in memory, as the modifiers of files use them: a node has an      *)
(* array of references to links, a copy of a node has an array of its own  *)
(* but refers to the same links.  Links are therefore replaced and never   *)
(* changed, and who hands out a node hands out a copy.                     *)
(*                                                                         *)
(* Several modifiers start from one node, edit it and hand out nodes.      *)
(* Checked: every node that was ever handed out, and the one they started  *)
(* from, keeps its value, and each modifier has the content that its own   *)
(* edits give (C09).                                                       *)
(*                                                                         *)
(* (One level is enough: nodes further down come from the store, each time *)
(* as a new object.)                                                       *)
(*                                                                         *)
(* Also generates histories, one per transition.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Mods,      \* how many modifiers
          N,         \* children of the first node
          Edits,     \* how many operations
          Emit, Flaw

VARIABLES link,      \* what each link leads to
          arr,       \* arrays: sequences of links
          node,      \* [a: array, n: how many of it are of this node]
          cur,       \* the node of each modifier
          out,       \* nodes that others have: <<node, value it had>>
          want,      \* the value that each modifier should have
          next, hist
vars == <<link, arr, node, cur, out, want, next, hist>>

Value(x) == [i \in 1..node[x].n |-> link[arr[node[x].a][i]]]

Init == /\ link = [i \in 1..N |-> i] /\ next = N + 1
        /\ arr = <<[i \in 1..N |-> i]>>
        \* Every modifier starts from its own copy of the first node.
        /\ LET base == [a |-> 1, n |-> N] IN
           IF Flaw = "base"
           THEN node = <<base>> /\ cur = [m \in 1..Mods |-> 1]
           ELSE node = [i \in 1..(Mods + 1) |-> base] /\ cur = [m \in 1..Mods |-> m + 1]
        /\ out = {<<1, [i \in 1..N |-> i]>>}
        /\ want = [m \in 1..Mods |-> [i \in 1..N |-> i]]
        /\ hist = <<(<<"T", [i \in 1..N |-> 1], Mods>>)>>

(* A copy has an array of its own: while it is the only difference between *)
(* them, that can wait until the first change.                             *)
Own(x) == [a |-> Len(arr) + 1, n |-> node[x].n]
Did(m, h, v) == /\ hist' = Append(hist, <<m>> \o h) /\ want' = [want EXCEPT ![m] = v]
                /\ next' = next + 1

\* The child at i is written over: another block, a link to it.
Write(m, i) ==
  LET x == cur[m] IN LET old == arr[node[x].a] IN
  /\ i <= node[x].n
  /\ IF Flaw = "inplace"
     THEN link' = [link EXCEPT ![old[i]] = next] /\ UNCHANGED <<arr, node>>
     ELSE /\ link' = Append(link, next)
          /\ IF Flaw = "array"
             THEN arr' = [arr EXCEPT ![node[x].a][i] = Len(link) + 1] /\ UNCHANGED node
             ELSE arr' = Append(arr, [old EXCEPT ![i] = Len(link) + 1]) /\ node' = [node EXCEPT ![x] = Own(x)]
  /\ UNCHANGED <<cur, out>>
  /\ Did(m, <<"WriteAt", 1, i - 1>>, [want[m] EXCEPT ![i] = next])

\* Nothing is written to an array by taking less of it...
Truncate(m, k) ==
  LET x == cur[m] IN
  /\ k < node[x].n
  /\ node' = [node EXCEPT ![x].n = k]
  /\ UNCHANGED <<link, arr, cur, out>>
  /\ Did(m, <<"Truncate", k>>, SubSeq(want[m], 1, k))

\* ... but there may be room in it afterwards.
Extend(m) ==
  LET x == cur[m] IN LET old == arr[node[x].a] IN
  /\ link' = Append(link, next)
  /\ LET new == Append(SubSeq(old, 1, node[x].n), Len(link) + 1) IN
     IF Flaw = "room"
     THEN arr' = [arr EXCEPT ![node[x].a] = new \o SubSeq(old, Len(new) + 1, Len(old))]
          /\ node' = [node EXCEPT ![x].n = Len(new)]
     ELSE arr' = Append(arr, new) /\ node' = [node EXCEPT ![x] = [a |-> Len(arr) + 1, n |-> Len(new)]]
  /\ UNCHANGED <<cur, out>>
  /\ Did(m, <<"WriteAt", 1, Len(want[m])>>, Append(want[m], next))

GetNode(m) ==
  LET x == cur[m] IN
  /\ IF Flaw = "handout" THEN UNCHANGED node /\ out' = out \cup {<<x, Value(x)>>}
     ELSE node' = Append(node, node[x]) /\ out' = out \cup {<<Len(node) + 1, Value(x)>>}
  /\ UNCHANGED <<link, arr, cur>>
  /\ Did(m, <<"GetNode">>, want[m])

Next == /\ Len(hist) <= Edits
        /\ \E m \in 1..Mods :
             \/ \E i \in 1..(N + 1) : Write(m, i)
             \/ \E k \in 0..N : Truncate(m, k)
             \/ Extend(m)
             \/ GetNode(m)
        /\ Emit => PrintT("GEN" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

Kept == \A x \in out : Value(x[1]) = x[2]
Own_ == \A m \in 1..Mods : Value(cur[m]) = want[m]
=============================================================================
