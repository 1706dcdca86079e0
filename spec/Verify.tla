------------------------------- MODULE Verify -------------------------------
(***************************************************************************)
(* Which DAGs are trickle DAGs, block by block: what                       *)
(* VerifyTrickleDagStructure has to accept.  A block is [k: "raw", "pb" or *)
(* "bad" (missing, or no unixfs node), t: unixfs type, dl: bytes of data,  *)
(* v, mh, mhl: version, hash and hash length of its CID, c: children].     *)
(*                                                                         *)
(* Parameters: direct leaves per node, rep sub-trees of each depth, raw    *)
(* leaves or not, and pre: the prefix that every block has to have.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

PrefixOK(b, p) ==
  \/ p.pre.any
  \/ /\ b.mh = p.pre.mh
     /\ p.pre.mhl = -1 \/ b.mhl = p.pre.mhl
     \* CIDs of version 0 can't say that a block is raw.
     /\ b.v = IF b.k = "raw" /\ p.pre.v = 0 THEN 1 ELSE p.pre.v

LeafOK(b, p) ==
  /\ b.k = IF p.raw THEN "raw" ELSE "pb"
  /\ b.k = "pb" => b.t = "Raw" /\ b.c = <<>>
  /\ PrefixOK(b, p)

\* Depth of the tree at the i-th position of a node; 0 is a leaf.
DepthAt(i, p) == IF i <= p.direct THEN 0 ELSE (i - p.direct - 1) \div p.rep + 1

\* The root has no depth of its own: Limit is more than there can be.
Limit == 1000000

RECURSIVE TreeOK(_, _, _)
TreeOK(b, d, p) ==
  IF b.k = "bad" THEN FALSE
  ELSE IF d = 0 THEN LeafOK(b, p)
  ELSE /\ b.k = "pb" /\ b.t = "File" /\ b.dl = 0
       /\ PrefixOK(b, p)
       /\ \A i \in 1..Len(b.c) : /\ DepthAt(i, p) < d
                                 /\ TreeOK(b.c[i], DepthAt(i, p), p)

Accept(b, p) == TreeOK(b, Limit, p)
=============================================================================
