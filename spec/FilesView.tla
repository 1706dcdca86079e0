----------------------------- MODULE FilesView -----------------------------
(***************************************************************************)
(* The files.Node view of a stored tree.  The tree is a sequence of nodes, *)
(* each [k: "dir", "file" or "link", size, data, target, ents], where ents *)
(* are the <<name, number of the node>> of a directory.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* What the iterator of a directory shows of an entry.
Shown(tree, x) == <<x[1], x[2], tree[x[2]].k>>
Entries(tree, i) == {Shown(tree, tree[i].ents[j]) : j \in 1..Len(tree[i].ents)}

Once(list, S) == Len(list) = Cardinality(ToSet(list)) /\ ToSet(list) \subseteq S

\* Each entry once and a clean end, or an error.
IterOK(tree, i, list, err, trouble) ==
  /\ Once(list, Entries(tree, i))
  /\ err = "nil" => ToSet(list) = Entries(tree, i)
  /\ err # "nil" => trouble
=============================================================================
