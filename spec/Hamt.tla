-------------------------------- MODULE Hamt --------------------------------
(***************************************************************************)
(* The canonical hash array mapped trie of a set of entries.  Names are    *)
(* numbers; h[n] is the sequence of bits of the hash of the name n, most   *)
(* significant first; lg is the logarithm of the fan-out, which is the     *)
(* number of bits that each level uses.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* Digit of a hash at level k (from 0).
Digit(bits, k, lg) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, SubSeq(bits, k * lg + 1, (k + 1) * lg))

Levels(bits, lg) == Len(bits) \div lg

\* Whether two names can be kept apart.
Apart(a, b, lg) == \E k \in 0..(Levels(a, lg) - 1) : Digit(a, k, lg) # Digit(b, k, lg)

(* The trie, as a function from digits to what is there: each entry sits at *)
(* the shallowest place where nothing else shares its digits.               *)
RECURSIVE Canon(_, _, _, _)
Canon(S, h, k, lg) ==
  LET D == {Digit(h[n], k, lg) : n \in S}
  IN  [d \in D |->
        LET G == {n \in S : Digit(h[n], k, lg) = d}
        IN  IF Cardinality(G) = 1
            THEN [val |-> TRUE, n |-> CHOOSE n \in G : TRUE]
            ELSE [val |-> FALSE, sub |-> Canon(G, h, k + 1, lg)]]

(* A stored shard t, as recorded, against the canonical trie of the set S   *)
(* of names: fan-out, hash type, bitfield (bit), names of links (pre and    *)
(* name), order, and cumulative sizes of sub-shards.                        *)
RECURSIVE IsCanon(_, _, _, _, _)
IsCanon(t, S, h, k, lg) ==
  /\ t.k = "shard"
  /\ t.fan = 2^lg
  /\ t.ht = 34
  /\ t.tsok
  /\ LET dg == TLCEval([n \in S |-> Digit(h[n], k, lg)])
         D == {dg[n] : n \in S}
     IN  /\ t.nones = Cardinality(D)
         /\ Len(t.slots) = Cardinality(D)
         /\ {t.slots[i].bit : i \in 1..Len(t.slots)} = D
         /\ \A i \in 1..Len(t.slots) :
              LET s == t.slots[i]
                  G == {n \in S : dg[n] = s.bit}
              IN  /\ s.pre = s.bit
                  /\ i > 1 => t.slots[i-1].bit < s.bit
                  /\ IF Cardinality(G) = 1
                     THEN s.k = "val" /\ s.name \in G
                     ELSE s.k = "shard" /\ IsCanon(s.c, G, h, k + 1, lg)

\* The entries in a stored shard: <<name, node, size>>.
RECURSIVE TreeEntries(_)
TreeEntries(t) ==
  IF t.k # "shard" THEN <<>>
  ELSE FoldLeft(LAMBDA acc, s : acc \o IF s.k = "val" THEN <<(<<s.name, s.id, s.ts>>)>> ELSE TreeEntries(s.c),
                <<>>, t.slots)

\* The prefixes of all the shards are among these.
RECURSIVE TreePrefixes(_, _)
TreePrefixes(t, ps) ==
  t.k = "shard" => /\ t.p \in ps
                   /\ \A i \in 1..Len(t.slots) : t.slots[i].k = "shard" => TreePrefixes(t.slots[i].c, ps)
=============================================================================
