----------------------------- MODULE TraceBuilder -----------------------------
(* Recorded uses of DagBuilderHelper and FSNodeOverDag against Builder.tla (C24). *)
EXTENDS Builder, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, p, src, nodes, blocks
vars == <<l, p, src, nodes, blocks>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ p = <<>> /\ src = <<>> /\ nodes = <<>> /\ blocks = <<>>

Helper ==
  /\ Is("Helper")
  /\ p' = e /\ e.got = e.ml
  /\ src' = [rest |-> e.chunks, fails |-> e.fails]
  /\ nodes' = <<>> /\ blocks' = <<>>

nd == nodes[e.n]
Room == p.ml - Len(nd.kids)

\* blocks: what was made under each identity, to compare with later.
Known(b) == [i \in (DOMAIN blocks \cup {b.id}) |-> IF i = b.id THEN b ELSE blocks[i]]

Keep == nodes' = nodes
Step ==
  CASE e.op = "Done" -> /\ e.done = IsDone(src) /\ Keep /\ src' = src /\ blocks' = blocks
    [] e.op = "Next" ->
         /\ e.err = NextErr(src)
         /\ e.err = "nil" => e.data = NextData(src) /\ e.isnil = (src.rest = <<>>)
         /\ src' = Took(src) /\ Keep /\ blocks' = blocks
    [] e.op = "Leaf" ->
         LET d == NextData(src) IN
         /\ e.err = IF NextErr(src) # "nil" THEN "source" ELSE IF Len(d) > p.limit THEN "limit" ELSE "nil"
         /\ IF e.err = "nil" THEN e.size = Len(d) /\ IsLeaf(e.block, d, e.t, p.raw, p.v, p.mh)
            ELSE e.block.k = "none"
         /\ src' = Took(src) /\ Keep
         /\ blocks' = IF e.err = "nil" THEN Known(e.block) ELSE blocks
    [] e.op = "Make" ->
         /\ e.err = IF Len(e.data) > p.limit THEN "limit" ELSE "nil"
         /\ IF e.err = "nil" THEN IsLeaf(e.block, e.data, e.t, p.raw, p.v, p.mh) ELSE e.block.k = "none"
         /\ src' = src /\ Keep
         /\ blocks' = IF e.err = "nil" THEN Known(e.block) ELSE blocks
    [] e.op = "Node" ->
         /\ e.n = Len(nodes) + 1
         /\ nodes' = Append(nodes, New(e.t)) /\ src' = src /\ blocks' = blocks
    [] e.op = "Add" ->
         /\ e.err = IF e.fault THEN "store" ELSE "nil"
         /\ e.kid = e.block.id
         /\ nodes' = [nodes EXCEPT ![e.n] = IF e.err = "nil" THEN Put(@, e.kid, e.size) ELSE @]
         /\ src' = src /\ blocks' = blocks
    [] e.op = "Remove" -> nodes' = [nodes EXCEPT ![e.n] = Drop(@, e.i)] /\ src' = src /\ blocks' = blocks
    [] e.op = "Data"   -> nodes' = [nodes EXCEPT ![e.n].data = e.data] /\ src' = src /\ blocks' = blocks
    [] e.op = "Fill" ->
         LET k == Fits(src.rest, Room, p.limit)
             got == IF e.fault THEN 0 ELSE Len(e.new)
         IN
         /\ e.err = IF e.fault THEN "store" ELSE FillErr(src, Room, p.limit)
         /\ ~e.fault =>
              /\ got = k
              /\ \A i \in 1..k : IsLeaf(e.new[i], src.rest[i], "Raw", p.raw, p.v, p.mh)
         /\ nodes' = [nodes EXCEPT ![e.n].kids = @ \o [i \in 1..got |-> [id |-> e.new[i].id, size |-> Len(src.rest[i])]]]
         \* A chunk over the limit is gone.
         /\ src' = [src EXCEPT !.rest = SubSeq(@, k + (IF e.err = "limit" THEN 2 ELSE 1), Len(@))]
         /\ blocks' = [i \in (DOMAIN blocks \cup {e.new[j].id : j \in 1..got}) |->
                          IF \E j \in 1..got : e.new[j].id = i
                          THEN e.new[CHOOSE j \in 1..got : e.new[j].id = i] ELSE blocks[i]]
    [] e.op \in {"Commit", "Load"} ->
         /\ e.err = "nil" /\ IsNode(e.block, nd, p.v, p.mh)
         /\ Keep /\ src' = src /\ blocks' = Known(e.block)
    [] e.op = "Child" ->
         LET b == blocks[nd.kids[e.i].id] IN
         /\ e.err = IF b.k = "raw" THEN "notpb" ELSE "nil"
         /\ e.err = "nil" => e.block = b /\ e.back = [num |-> Len(b.bs), fs |-> b.fs]
         /\ Keep /\ src' = src /\ blocks' = blocks

\* Both layers of the node, after every operation (but after a failed one its
\* builder has to give up).
InStep ==
  e.n <= Len(nodes') /\ ~e.fault =>
    LET x == nodes'[e.n] IN
    /\ e.num = Len(x.kids) /\ e.fs = SizeOf(x)
    /\ e.ids = [i \in 1..Len(x.kids) |-> x.kids[i].id]
    /\ e.stored

Op == /\ Is("Op") /\ e.res = "ok"
      /\ p' = p
      /\ Step
      /\ InStep

Next == Helper \/ Op
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
