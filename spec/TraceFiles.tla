----------------------------- MODULE TraceFiles -----------------------------
(* Recorded walks over files.Node views against FilesView.tla (C16). *)
EXTENDS FilesView, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, tree
vars == <<l, tree>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ tree = <<>>

Tree == Is("Tree") /\ tree' = e.nodes

Open == /\ Is("Open") /\ e.res = "ok"
        /\ IF e.err = "nil" THEN e.kind = tree[e.i].k ELSE e.fault
        /\ tree' = tree

Iter == /\ Is("Iter") /\ e.res = "ok"
        /\ tree[e.i].k = "dir"
        /\ e.size = tree[e.i].size
        /\ IF e.stopped
           THEN Once(e.list, Entries(tree, e.i))
           ELSE IterOK(tree, e.i, e.list, e.err, e.fault) /\ ~e.again /\ e.quiet
        /\ tree' = tree

File == /\ Is("File") /\ e.res = "ok"
        /\ tree[e.i].k = "file"
        /\ e.size = tree[e.i].size
        /\ IF e.err = "nil" THEN e.got = tree[e.i].data
           ELSE e.fault /\ IsPrefix(e.got, tree[e.i].data)
        /\ tree' = tree

Link == /\ Is("Link")
        /\ tree[e.i].k = "link"
        /\ e.err = "nil" /\ e.target = tree[e.i].target /\ e.size = tree[e.i].size
        /\ tree' = tree

\* Once the context is cancelled nothing is left behind.
End == Is("End") /\ ~e.leak /\ tree' = tree

Next == Tree \/ Open \/ Iter \/ File \/ Link \/ End
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
