------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* Several directories that were loaded from nodes, which may be the same, *)
(* and from which nodes are taken.  Directories are maps, one for each     *)
(* handle; nodes are values: neither has to do with another once it is     *)
(* there (C26).                                                            *)
(*                                                                         *)
(* Also generates histories: two handles on one directory, all the ways to *)
(* edit them in turns.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

\* A map is a sequence: the node under each name, 0 for none.
Entries(m) == {<<n, m[n]>> : n \in {k \in DOMAIN m : m[k] # 0}}
Put(m, n, x) == [m EXCEPT ![n] = x]

(* Generation: the directory has the first Names - 1 of the names.         *)
CONSTANTS Names, Steps, Emit
VARIABLES maps, hist
gvars == <<maps, hist>>

Start == [n \in 1..Names |-> IF n < Names THEN 1 ELSE 0]
GInit == maps = <<Start, Start>> /\ hist = <<(<<"H", Names>>)>>
Edit(h, n, x) == /\ maps' = [maps EXCEPT ![h] = Put(@, n, x)]
                 /\ hist' = Append(hist, IF x = 0 THEN <<"Remove", h, n>> ELSE <<"Add", h, n, x>>)
GNext == /\ Len(hist) <= Steps
         /\ \E h \in 1..2 : \E n \in 1..Names : \E x \in {0, 2} : Edit(h, n, x)
         /\ (Emit /\ Len(hist') = Steps + 1) => PrintT("GEN" \o ToJson(hist'))
GSpec == GInit /\ [][GNext]_gvars
\* Only its own edits have to do with what a handle shows.
Apart == \A h \in 1..2 : (\A i \in 2..Len(hist) : hist[i][2] # h) => maps[h] = Start
=============================================================================
