--------------------------- MODULE TraceModifier ---------------------------
(***************************************************************************)
(* Recorded histories of DagModifiers, and of the nodes obtained from      *)
(* them, against DagModifier.tla (C08), FileTree.tla (C07, C20) and the    *)
(* rule that a node, once obtained, never changes (C09).                   *)
(***************************************************************************)
EXTENDS DagModifier, Json, IOUtils, TLC

FT == INSTANCE FileTree

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IOEnv.PROP
P(ids) == PROP \in ids

VARIABLES l,
          base,   \* the event with the node everything starts from
          mods,   \* the modifiers
          snaps,  \* nodes obtained so far: content, identity, open reader
          prev,   \* per modifier: leaves of the last node and range written since
          broken  \* modifiers which failed (because of the store): only C22 says
                  \* what they are worth
vars == <<l, base, mods, snaps, prev, broken>>

e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ base = <<>> /\ mods = <<>> /\ snaps = <<>> /\ prev = <<>> /\ broken = {}

NoRange == [lo |-> 1073741824, hi |-> 0]
Snap0(c, id) == [c |-> c, id |-> id, pos |-> 0]

Base ==
  /\ Is("Base")
  /\ base' = e
  /\ mods' = [i \in 1..e.nmods |-> Fresh(e.data)]
  /\ snaps' = <<Snap0(e.data, e.root)>>
  /\ prev' = [i \in 1..e.nmods |-> [leaves |-> e.leaves, r |-> NoRange, raw |-> FALSE, cut |-> Len(e.data) * e.U,
                                     root |-> e.tree.k, over |-> <<>>, low |-> Len(e.data) * e.U]]
  /\ broken' = {}

New ==
  /\ Is("New")
  /\ e.res = "ok"
  /\ P({"C20"}) => e.rawdef = (base.ver > 0)
  /\ prev' = [prev EXCEPT ![e.m].raw = e.raw, ![e.m].over = e.over]
  /\ UNCHANGED <<base, mods, snaps, broken>>

\* The range of bytes touched by an operation: writes, and the zeros of gaps.
Touch(p, f, g, o, n) ==
  LET lo == IF o < Len(f.c) THEN o ELSE Len(f.c)
  IN  [p EXCEPT !.r.lo = IF n > 0 /\ lo * base.U < @ THEN lo * base.U ELSE @,
                !.r.hi = IF n > 0 /\ (o + n) * base.U > @ THEN (o + n) * base.U ELSE @,
                !.cut  = IF Len(g.c) * base.U < @ THEN Len(g.c) * base.U ELSE @,
                !.low  = IF Len(g.c) * base.U < @ THEN Len(g.c) * base.U ELSE @]

\* Leaves that were not written to, and still are within the file, stay.
Untouched(p, leaves) ==
  p.root = "node" =>
    {x \in ToSet(p.leaves) : /\ x[2] > 0
                            /\ ~(x[1] < p.r.hi /\ x[1] + x[2] > p.r.lo)
                            /\ x[1] + x[2] <= p.cut} \subseteq ToSet(leaves)


NodeOK(f, p) ==
  /\ P({"C08", "C22"}) => e.got = f.c /\ e.rsize = Len(f.c) /\ FT!WellFormed(e.tree)
  /\ P({"C09"}) => TRUE
  /\ P({"C10"}) => e.stored
  /\ P({"C07"}) => /\ FT!WellFormed(e.tree) /\ FT!SizesOK(e.tree)
                   /\ FT!Bytes(e.tree) = Len(e.got) * base.U
                   /\ e.rsize = Len(e.got)
  /\ P({"C20"}) => /\ IF p.over = <<>> THEN FT!PrefixOK(e.tree, base.ver, base.mh)
                      ELSE FT!MixedPrefixOK(e.tree, <<base.ver, base.mh>>, p.over, p.low, 0)
                   /\ (FT!LeavesAre(base.tree, p.raw) /\ Len(base.data) > 0 /\ FT!Bytes(e.tree) > 0) => FT!LeavesAre(e.tree, p.raw)
                   /\ Untouched(p, e.leaves)

\* What is reported after the operation.
Seen(f, flushed) ==
  P({"C08", "C22"}) =>
    /\ e.size = Len(f.c) /\ e.szrem = 0
    /\ IF flushed THEN ~e.has
       ELSE IF e.has THEN f.dirty \/ e.op \in {"Write", "WriteAt"}
       ELSE ~f.dirty \/ e.adds > 0

Flushing == {"Read", "CtxReadFull", "Seek", "Truncate", "Sync", "GetNode"}

\* A fetch or a store failed, or the context was cancelled.
Fails == (e.fault /\ e.err = "other") \/ (e.cancelled /\ e.err = "other")

(* What a failed operation leaves (C22): the file as it was, with all the   *)
(* pending writes, the ones it accepted itself included. Only when it goes  *)
(* past the end may the file have been extended already: size tells.        *)
Extended(f, t) == IF e.size > Len(f.c) /\ e.size <= t THEN [f EXCEPT !.c = Pad(f.c, e.size)] ELSE f
AfterFail(f) ==
  CASE e.op = "Write"    -> IF e.n = Len(e.d) THEN Written(f, f.off, e.d) ELSE f
    [] e.op = "WriteAt"  -> IF e.n = Len(e.d) /\ e.n > 0 THEN Written(f, e.off, e.d) ELSE Extended(f, e.off)
    [] e.op \in {"Read", "CtxReadFull"} -> [AfterRead(f, e.got) EXCEPT !.dirty = f.dirty]
    [] e.op = "Seek"     -> Extended(f, Target(f, e.off, e.wh))
    [] e.op = "Truncate" -> Extended(f, e.off)
    [] OTHER -> f
FailOK(f) ==
  CASE e.op \in {"Write", "WriteAt"} -> e.rem = 0 /\ e.n \in {0, Len(e.d)}
    [] e.op \in {"Read", "CtxReadFull"} -> Len(e.got) <= e.n /\ IsPrefix(e.got, From(f.c, f.off))
    [] OTHER -> TRUE

Step(f) ==
  CASE e.op = "Write"    -> Written(f, f.off, e.d)
    [] e.op = "WriteAt"  -> IF e.err = "nil" THEN Written(f, e.off, e.d) ELSE f
    [] e.op \in {"Read", "CtxReadFull"} -> AfterRead(f, e.got)
    [] e.op = "Seek"     -> IF e.err = "nil" THEN AfterSeek(f, Target(f, e.off, e.wh)) ELSE Flushed(f)
    [] e.op = "Truncate" -> IF e.err = "nil" THEN AfterTruncate(f, e.off) ELSE f
    [] e.op \in {"Sync", "GetNode"} -> Flushed(f)

Answer(f) ==
  CASE e.op = "Write"    -> e.err = "nil" /\ e.n = Len(e.d) /\ e.rem = 0
    [] e.op = "WriteAt"  -> IF e.off < 0 THEN e.err = "other"
                            ELSE e.err = "nil" /\ e.n = Len(e.d) /\ e.rem = 0
    [] e.op \in {"Read", "CtxReadFull"} -> ReadOK(f, e.n, e.got, e.err)
    [] e.op = "Seek"     -> IF Target(f, e.off, e.wh) < 0 THEN e.err = "other"
                            ELSE e.err = "nil" /\ e.ret = Target(f, e.off, e.wh) /\ e.rem = 0
    [] e.op = "Truncate" -> IF e.off < 0 THEN e.err = "other" ELSE e.err = "nil"
    [] e.op \in {"Sync", "GetNode"} -> e.err = "nil"

Op ==
  /\ Is("Op")
  /\ LET f == mods[e.m]
         g == Step(f)
     IN
     /\ (P({"C10"}) /\ e.addfault) => e.err = "other"
     /\ IF P({"C22"}) /\ Fails
        THEN /\ e.res = "ok" /\ FailOK(f)
             /\ Seen(AfterFail(f), FALSE)
             /\ mods' = [mods EXCEPT ![e.m] = [AfterFail(f) EXCEPT !.dirty = e.has]]
             /\ prev' = [prev EXCEPT ![e.m] = LET g2 == AfterFail(f) IN
                  IF e.op \in {"Write", "WriteAt"} /\ e.n > 0
                  THEN Touch(@, f, g2, IF e.op = "Write" THEN f.off ELSE e.off, Len(e.d))
                  ELSE Touch(@, f, g2, Len(f.c), Len(g2.c) - Len(f.c))]
             /\ UNCHANGED <<base, snaps, broken>>
        ELSE IF e.m \in broken \/ Fails
        THEN /\ broken' = broken \cup {e.m}
             /\ IF e.op = "GetNode" /\ e.err = "nil"
                THEN /\ P({"C10"}) => e.stored
                     /\ snaps' = Append(snaps, Snap0(e.got, e.root))
                ELSE UNCHANGED snaps
             /\ UNCHANGED <<base, mods, prev>>
        ELSE /\ P({"C08", "C22"}) => e.res = "ok" /\ Answer(f)
             /\ Seen(g, e.op \in Flushing /\ e.err \in {"nil", "EOF"})
             /\ e.op = "GetNode" /\ e.err = "nil" => NodeOK(g, prev[e.m])
             /\ mods' = [mods EXCEPT ![e.m] = [g EXCEPT !.dirty = e.has]]
             /\ prev' = [prev EXCEPT ![e.m] =
                  CASE e.op = "GetNode" /\ e.err = "nil" ->
                         [@ EXCEPT !.leaves = e.leaves, !.r = NoRange, !.cut = Len(g.c) * base.U, !.root = e.tree.k]
                    [] e.op = "Write"    -> Touch(@, f, g, f.off, Len(e.d))
                    [] e.op = "WriteAt" /\ e.off >= 0 -> Touch(@, f, g, e.off, Len(e.d))
                    [] OTHER -> Touch(@, f, g, Len(f.c), IF Len(g.c) > Len(f.c) THEN Len(g.c) - Len(f.c) ELSE 0)]
             /\ snaps' = IF e.op = "GetNode" /\ e.err = "nil"
                         THEN Append(snaps, Snap0(e.got, e.root)) ELSE snaps
             /\ UNCHANGED <<base, broken>>

(* Nodes obtained earlier. *)
Snap ==
  /\ Is("Snap")
  /\ P({"C09"}) => /\ e.id = snaps[e.s].id
                   /\ e.got = snaps[e.s].c
                   /\ e.wf
  /\ UNCHANGED <<base, mods, snaps, prev, broken>>
SnapOpen ==
  /\ Is("SnapOpen")
  /\ P({"C09"}) => e.size = Len(snaps[e.s].c)
  /\ snaps' = [snaps EXCEPT ![e.s].pos = 0]
  /\ UNCHANGED <<base, mods, prev, broken>>
SnapSeek ==
  /\ Is("SnapSeek")
  /\ P({"C09"}) => e.err = "nil" /\ e.ret = e.off
  /\ snaps' = [snaps EXCEPT ![e.s].pos = e.off]
  /\ UNCHANGED <<base, mods, prev, broken>>
SnapRead ==
  /\ Is("SnapRead")
  /\ P({"C09"}) => /\ e.res = "ok"
                   /\ ReadOK([c |-> snaps[e.s].c, off |-> snaps[e.s].pos], e.n, e.got, e.err)
  /\ snaps' = [snaps EXCEPT ![e.s].pos = @ + Len(e.got)]
  /\ UNCHANGED <<base, mods, prev, broken>>

Next == Base \/ New \/ Op \/ Snap \/ SnapOpen \/ SnapSeek \/ SnapRead
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
