---------------------------- MODULE TraceBigDir ----------------------------
(***************************************************************************)
(* Large directories, edited in bulk, against Directory.tla and Hamt.tla:  *)
(* what is in them (C11), the shape of the trie (C12), when they are       *)
(* sharded (C13), listings (C15), the files view (C16).                    *)
(***************************************************************************)
EXTENDS Directory, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IOEnv.PROP
P(ids) == PROP \in ids

VARIABLES l, d, u
vars == <<l, d, u>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ d = [ents |-> <<>>, kind |-> "basic", lg |-> 0, net |-> 0] /\ u = <<>>

Big ==
  /\ Is("Big") /\ u' = e
  /\ d' = [Empty(Len(e.names)) EXCEPT !.kind = IF e.api = "dir" THEN "basic" ELSE "hamt",
                                      !.lg = IF e.api = "dir" THEN 0 ELSE e.lg]

T == IF u.api = "dir" THEN u.T ELSE 0
Sz(n, x) == IF x = 0 THEN 0 ELSE u.names[n].len + u.nodes[x].clen

(* One edit of those in bulk: Set of Directory.tla, with the size at hand.  *)
Step(a, o) ==
  LET n == o[1]
      x == o[2]
      c == Sz(n, x) - Sz(n, a.ents[n])
      grows == a.kind = "basic" /\ T > 0 /\ x # 0 /\ a.size + c >= T
      shrinks == a.kind = "hamt" /\ T > 0 /\ a.net + c < 0 /\ a.size + c < T
      absent == x = 0 /\ a.ents[n] = 0
      i == a.i + 1
  IN [i |-> i,
      ents |-> [a.ents EXCEPT ![n] = x],
      size |-> a.size + c,
      kind |-> IF absent THEN a.kind ELSE IF grows THEN "hamt" ELSE IF shrinks THEN "basic" ELSE a.kind,
      net  |-> IF absent THEN a.net
               ELSE IF grows THEN c
               ELSE IF shrinks \/ a.kind = "basic" THEN 0 ELSE a.net + c,
      lg   |-> IF ~absent /\ grows THEN u.lg ELSE a.lg,
      odd  |-> IF absent THEN Append(a.odd, <<i, 1>>) ELSE a.odd,
      sw   |-> IF ~absent /\ (grows \/ shrinks) THEN Append(a.sw, i) ELSE a.sw,
      old  |-> a.old /\ (absent \/ o[3] = -1 \/ o[3] = a.ents[n])]
Fill ==
  /\ Is("Fill") /\ e.res = "ok" /\ u' = u
  /\ LET size == FoldLeft(LAMBDA a, n : a + Sz(n, d.ents[n]), 0, [i \in 1..Len(d.ents) |-> i])
         r == FoldLeft(Step, [i |-> 0, ents |-> d.ents, size |-> size, kind |-> d.kind, net |-> d.net, lg |-> d.lg,
                              odd |-> <<>>, sw |-> <<>>, old |-> TRUE], e.ops)
     IN /\ P({"C11"}) => e.odd = r.odd /\ r.old
        /\ P({"C13"}) => e.sw = r.sw
        /\ d' = [ents |-> r.ents, lg |-> r.lg, net |-> r.net,
                 kind |-> IF P({"C13"}) \/ Len(e.sw) % 2 = Len(r.sw) % 2 THEN r.kind
                          ELSE IF r.kind = "hamt" THEN "basic" ELSE "hamt"]

Listing(dd) == {<<n, dd.ents[n], u.nodes[dd.ents[n]].ts>> : n \in Names(dd)}
Full(list, dd) == Len(list) = Cardinality(Names(dd)) /\ ToSet(list) = Listing(dd)

List ==
  /\ Is("List") /\ UNCHANGED <<d, u>>
  /\ P({"C11", "C15"}) => e.res = "ok" /\ e.err = "nil" /\ Full(e.list, d)
  /\ P({"C15"}) => ~e.leak

Node ==
  /\ Is("Node") /\ UNCHANGED <<d, u>>
  /\ P({"C11"}) => /\ e.res = "ok" /\ e.err = "nil"
                   /\ IF e.tree.k = "dir" THEN Full(e.tree.links, d)
                      ELSE e.tree.k = "shard" /\ Full(TreeEntries(e.tree), d)
  /\ P({"C13"}) => e.kind = d.kind /\ e.tree.k = (IF d.kind = "basic" THEN "dir" ELSE "shard")
  /\ P({"C12"}) /\ e.tree.k = "shard" =>
       IsCanon(e.tree, Names(d), [n \in 1..Len(u.names) |-> u.names[n].h], 0, d.lg)
  /\ P({"C12", "C11"}) => e.tree.k \in {"dir", "shard"}

Load == Is("Load") /\ (P({"C11"}) => e.res = "ok" /\ e.err = "nil") /\ d' = Reloaded(d) /\ u' = u

Find ==
  /\ Is("Find") /\ UNCHANGED <<d, u>>
  /\ P({"C11"}) => e.res = "ok" /\ \A i \in 1..Len(e.got) : e.got[i][2] = d.ents[e.got[i][1]]

View ==
  /\ Is("View") /\ UNCHANGED <<d, u>>
  /\ P({"C16"}) => /\ e.res = "ok" /\ e.err = "nil"
                   /\ Len(e.list) = Cardinality(Names(d)) /\ ToSet(e.list) = Names(d)

Next == Big \/ Fill \/ List \/ Node \/ Load \/ Find \/ View
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
