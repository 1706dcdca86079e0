------------------------------ MODULE TraceDir ------------------------------
(***************************************************************************)
(* Recorded histories of directories (through io.Directory and through     *)
(* hamt.Shard) against Directory.tla and Hamt.tla.                         *)
(***************************************************************************)
EXTENDS Directory, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IOEnv.PROP
P(ids) == PROP \in ids

VARIABLES l, dir, T, u, nlen, clen, h,
          pre, \* the CID prefix asked for
          all  \* prefixes that shards of the directory may have: those which
               \* were asked for since it is sharded
vars == <<l, dir, T, u, nlen, clen, h, pre, all>>

e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == /\ l = 1 /\ dir = Empty(0) /\ T = 0
        /\ u = <<>> /\ nlen = <<>> /\ clen = <<>> /\ h = <<>>
        /\ pre = <<>> /\ all = {}

Dir ==
  /\ Is("Dir")
  /\ u' = e
  /\ T' = e.T
  /\ pre' = <<e.ver, e.mh, 112>> /\ all' = {<<e.ver, e.mh, 112>>}
  /\ nlen' = [i \in 1..Len(e.names) |-> e.names[i].len]
  /\ h' = [i \in 1..Len(e.names) |-> e.names[i].h]
  /\ clen' = [i \in 1..Len(e.nodes) |-> e.nodes[i].clen]
  /\ LET d == Empty(Len(e.names))
     IN  dir' = IF e.api = "dir" THEN d ELSE [d EXCEPT !.kind = "hamt", !.lg = e.lg]
  /\ P({"C11", "C13", "C14"}) => e.kind = dir'.kind

Maps == {"C11", "C14"}

TT == IF u.api = "dir" THEN T ELSE 0
Target(d) == Set(d, e.name, IF e.op = "Add" THEN e.node ELSE 0, TT, u.lg, nlen, clen)

\* What is listed, in full: every entry once, with its node and size.
Listing(d) == {<<n, d.ents[n], u.nodes[d.ents[n]].ts>> : n \in Names(d)}
Full(list, d) == Len(list) = Cardinality(Names(d)) /\ ToSet(list) = Listing(d)
Part(list, d) == ToSet(list) \subseteq Listing(d) /\ Cardinality(ToSet(list)) = Len(list)

(* Additions and removals. *)
Refuse == e.op = "Add" /\ Refused(dir, e.name, e.node, TT, u.lg, nlen, clen, h)
Absent == e.op = "Remove" /\ dir.ents[e.name] = 0

Edit ==
  /\ e.op \in {"Add", "Remove"}
  /\ P(Maps) =>
      /\ CASE e.err = "nil"      -> ~Refuse /\ ~Absent
           [] e.err = "notexist" -> Absent
           [] OTHER              -> e.fault \/ Refuse
      /\ (e.err = "nil" /\ e.hasold) => e.old = dir.ents[e.name]
  /\ dir' = IF e.err = "nil"
            THEN IF P({"C13", "C11", "C14"}) THEN Target(dir)
                 ELSE \* the other properties follow the real representation
                      [Target(dir) EXCEPT !.kind = e.kind,
                                          !.lg = IF e.kind # dir.kind THEN u.lg ELSE dir.lg]
            ELSE dir
  /\ P({"C13"}) \/ (P({"C14"}) /\ e.err # "nil") => e.kind = dir'.kind

Find ==
  /\ e.op = "Find"
  /\ P(Maps) =>
      CASE e.err = "nil"      -> /\ dir.ents[e.name] # 0 /\ e.got = dir.ents[e.name]
                                  /\ e.gsize \in {-1, u.nodes[e.got].ts}
        [] e.err = "notexist" -> dir.ents[e.name] = 0
        [] OTHER              -> e.fault
  /\ dir' = dir

List ==
  /\ e.op \in {"Links", "Each", "Enum"}
  /\ P(Maps \cup {"C15"}) =>
      /\ Part(e.list, dir)
      /\ CASE e.err = "nil" -> Full(e.list, dir) \/ (e.op = "Enum" /\ e.cancelled)
           [] e.op = "Each" /\ e.cb -> Len(e.list) = e.stop
           [] OTHER -> e.fault
      /\ (e.op = "Each" /\ e.err = "nil") => e.stop < 0 \/ Len(e.list) <= e.stop
  /\ dir' = dir

NodeOK(t, d) ==
  /\ P(Maps) =>
       IF t.k = "dir" THEN Full(t.links, d)
       ELSE t.k = "shard" /\ Full(TreeEntries(t), d)
  /\ P({"C13"}) => t.k = (IF d.kind = "basic" THEN "dir" ELSE "shard")
  /\ P({"C12"}) /\ t.k # "dir" => IsCanon(t, Names(d), h, 0, d.lg) /\ Full(TreeEntries(t), d)
  /\ P({"C20", "C13"}) => t.p = pre /\ (t.k = "dir" \/ TreePrefixes(t, all))
  /\ P({"C10"}) /\ t.k # "dir" => e.stored

Node ==
  /\ e.op \in {"Node", "Reload"}
  /\ P(Maps) => e.err = "nil" \/ e.fault
  /\ e.tree.k # "none" => NodeOK(e.tree, dir)
  /\ P(Maps) /\ e.err = "nil" => e.tree.k # "none"
  /\ dir' = IF e.op = "Reload" /\ e.err = "nil" THEN Reloaded(dir) ELSE dir

Op ==
  /\ Is("Op")
  /\ e.res = "ok"
  /\ (P({"C10", "C14"}) /\ e.addfault) => e.err # "nil"
  /\ u' = IF e.op = "SetW" THEN [u EXCEPT !.lg = e.lg] ELSE u
  /\ T' = IF e.op = "SetT" THEN e.T ELSE T
  /\ pre' = IF e.op = "SetB" THEN e.p ELSE pre
  /\ IF e.op \in {"SetT", "SetW", "SetB"} THEN dir' = dir
     ELSE Edit \/ Find \/ List \/ Node
  /\ all' = IF dir'.kind = "hamt" /\ dir.kind = "hamt" THEN all \cup {pre'} ELSE {pre'}
  /\ P({"C13", "C20"}) => e.bp = pre'
  /\ P({"C13"}) => e.kind = dir'.kind
  /\ UNCHANGED <<nlen, clen, h>>

Next == Dir \/ Op
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
