----------------------------- MODULE Malformed -----------------------------
(***************************************************************************)
(* Any DAG of blocks, however malformed, as a sequence of nodes in which   *)
(* children come before their parents: [dl: bytes of data in the block,    *)
(* kids: numbers of the children, 0 for what isn't in the store].          *)
(*                                                                         *)
(* A call on it ends, with a result or an error, having used resources in  *)
(* proportion to the tree under the node it was called on.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Sum(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)

\* For every node, [data, links]: bytes and links in the tree under it.
Below(nodes) ==
  FoldSeq(LAMBDA nd, acc :
            Append(acc,
              LET get(f, k) == IF k = 0 THEN 0 ELSE acc[k][f]
              IN  [data  |-> nd.dl + Sum([i \in DOMAIN nd.kids |-> get("data", nd.kids[i])]),
                   links |-> Len(nd.kids) + Sum([i \in DOMAIN nd.kids |-> get("links", nd.kids[i])])]),
          <<>>, nodes)

\* A read delivers no more bytes than there are, a listing no more entries.
MaxMB == 32
Bounded(b, call) == /\ call.bytes <= b[call.i].data
                    /\ call.links <= b[call.i].links
                    /\ call.mb <= MaxMB

\* Neither a panic nor a loop.
Ends(call) == call.res = "ok"
=============================================================================
