------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* Resolution of one segment of a path in a directory: a function of its   *)
(* entries, dir[name] is the node under that name or 0.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* The answers: a link to the node with its cumulative size and the rest of the
\* path, "notexist" exactly for names that aren't there, an error if something
\* is in the way.  An empty path has no answer but an error.
Answer(dir, sizes, path, a) ==
  IF path = <<>> THEN a.err \notin {"nil"}
  ELSE CASE a.err = "nil"      -> /\ a.haslink
                                  /\ dir[path[1]] # 0
                                  /\ a.got = dir[path[1]]
                                  /\ a.size = sizes[a.got]
                                  /\ a.rest
         [] a.err = "notexist" -> dir[path[1]] = 0
         [] OTHER              -> a.fault

\* It only looks: nothing is stored, the node stays as it is.
OnlyLooks(a) == a.adds = 0 /\ a.same

\* No blocks are asked for but those on the way to the name.
OnPath(a) == a.gets <= a.depth

Agrees(dir, path, found) == IF found = -1 THEN TRUE ELSE found = dir[path[1]]
=============================================================================
