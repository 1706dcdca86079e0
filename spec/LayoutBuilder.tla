---------------------------- MODULE LayoutBuilder ----------------------------
(***************************************************************************)
(* The builders of the two layouts as machines: they read a chunk, store a *)
(* block or extend a node at each step, with the call stack made explicit, *)
(* over a source and a block store that can fail at any point, and in a    *)
(* process that can crash at any point.                                    *)
(*                                                                         *)
(* Checked: what they produce is the canonical tree of Layout.tla (C02,    *)
(* C03), a root is handed out only if all of the source is in it (C01),    *)
(* blocks are stored after their children, whatever happens (C10), and an  *)
(* import always ends.                                                     *)
(***************************************************************************)
EXTENDS Layout, Json, TLC

CONSTANTS MaxChunks,  \* longest source
          Widths,     \* maximum numbers of links
          Layouts,    \* subset of {"balanced", "trickle"}
          Same,       \* TRUE: all the chunks are the same, so are many nodes
          Emit,       \* print the imports (without failures)
          Flaw        \* "none", or a way to get it wrong that has to be found

VARIABLES lay, m, nchunks,   \* the import
          used,              \* chunks read so far
          eof,               \* took a failure for the end (flaw "swallow")
          stk,               \* frames: nodes under construction, root first
          ret,               \* what the last call returned: a sequence of at most one node
          store,             \* stored blocks
          out,               \* "run", "ok", "err", "crash"
          root               \* what was handed out
vars == <<lay, m, nchunks, used, eof, stk, ret, store, out, root>>

Chunk(i) == Leaf(IF Same THEN 1 ELSE i)
Sizes == [i \in 1..nchunks |-> Chunk(i).n]
Done == used = nchunks \/ eof

\* d: height (balanced) or depth limit (trickle, -1 for none);
\* dep, rep: depth of the sub-trees that are being added and how many there are.
Frame(d, kids) == [d |-> d, kids |-> kids, dep |-> 1, rep |-> 0]
Top == stk[Len(stk)]
Full(f) == Len(f.kids) >= m

Init ==
  /\ lay \in Layouts /\ m \in Widths /\ nchunks \in 0..MaxChunks
  /\ lay = "balanced" => m > 1      \* a tree of nodes with one child never ends
  /\ used = 0 /\ eof = FALSE /\ ret = <<>> /\ store = {} /\ out = "run" /\ root = <<>>
  /\ stk = IF lay = "trickle" THEN <<Frame(-1, <<>>)>> ELSE <<>>

Const == UNCHANGED <<lay, m, nchunks>>
Fixed == Const /\ UNCHANGED eof
Running == out = "run"

WithKid(t) == [stk EXCEPT ![Len(stk)].kids = Append(@, t)]

\* The next chunk becomes a leaf, on its way to the node under construction.
ReadChunk(then) ==
  /\ ~Done /\ used' = used + 1 /\ ret' = <<Chunk(used + 1)>>
  /\ stk' = then /\ UNCHANGED <<store, out, root>>

Call(d) == stk' = Append(stk, Frame(d, <<>>)) /\ UNCHANGED <<used, ret, store, out, root>>
Return == /\ ret' = <<Node(Top.kids)>> /\ stk' = Front(stk)
          /\ UNCHANGED <<used, store, out, root>>

\* The returned node is stored, and linked in the node under construction.
AddChild ==
  /\ ret # <<>> /\ stk # <<>>
  /\ store' = IF Flaw = "late" THEN store ELSE store \cup {ret[1]}
  /\ stk' = IF lay = "trickle" /\ Len(Top.kids) >= m
            THEN [WithKid(ret[1]) EXCEPT ![Len(stk)].rep = @ + 1]
            ELSE WithKid(ret[1])
  /\ ret' = <<>>
  /\ UNCHANGED <<used, out, root>>

Finish == /\ store' = store \cup {ret[1]}
          /\ root' = ret /\ out' = "ok" /\ UNCHANGED <<used, stk, ret>>
          /\ Emit => PrintT("GEN" \o ToJson(<<lay, m, nchunks>>))

RECURSIVE Height(_)
Height(t) == IF t.leaf THEN 1 ELSE 1 + Height(t.c[1])

BalancedStep ==
  IF ret # <<>> THEN
    IF stk # <<>> THEN AddChild
    ELSE IF Done THEN Finish
    \* One more level: the tree so far is the first child of the new root.
    ELSE /\ store' = store \cup {ret[1]}
         /\ stk' = <<Frame(Height(ret[1]), ret)>>
         /\ ret' = <<>> /\ UNCHANGED <<used, out, root>>
  ELSE IF stk = <<>> THEN
    IF Done THEN ret' = <<Leaf(0)>> /\ UNCHANGED <<used, stk, store, out, root>>
    ELSE ReadChunk(stk)
  ELSE IF Full(Top) \/ Done THEN Return
  ELSE IF Top.d = 1 THEN ReadChunk(stk)
  ELSE Call(Top.d - 1)

TrickleStep ==
  IF ret # <<>> THEN IF stk # <<>> THEN AddChild ELSE Finish
  ELSE IF Len(Top.kids) < m /\ ~Done THEN ReadChunk(stk)
  ELSE IF Done THEN
    IF Len(stk) = 1 /\ Top.kids = <<>>
    THEN ret' = <<Leaf(0)>> /\ stk' = <<>> /\ UNCHANGED <<used, store, out, root>>
    ELSE Return
  ELSE IF Top.rep = LayerRepeat - (IF Flaw = "repeat" THEN 1 ELSE 0) THEN
    stk' = [stk EXCEPT ![Len(stk)].rep = 0, ![Len(stk)].dep = @ + 1]
    /\ UNCHANGED <<used, ret, store, out, root>>
  ELSE IF Top.d # -1 /\ Top.dep >= Top.d THEN Return
  ELSE Call(Top.dep)

Step == Running /\ Fixed /\ (IF lay = "balanced" THEN BalancedStep ELSE TrickleStep)

\* Reads a chunk or stores a block, in vain.
Reads == ret = <<>> /\ ~Done
Stores == ret # <<>>
Fail ==
  /\ Running /\ Const /\ (Reads \/ Stores)
  /\ IF Flaw = "swallow" /\ Reads
     THEN eof' = TRUE /\ UNCHANGED <<used, stk, ret, store, out, root>>
     ELSE out' = "err" /\ UNCHANGED <<used, eof, stk, ret, store, root>>
Crash == Running /\ Fixed /\ out' = "crash" /\ UNCHANGED <<used, stk, ret, store, root>>

Next == Step \/ (~Emit /\ (Fail \/ Crash))
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

------------------------------------------------------------------------------
Kids(t) == {t.c[i] : i \in 1..Len(t.c)}
ChildrenFirst == \A t \in store : Kids(t) \subseteq store

Canonical ==
  out = "ok" => root[1] = IF lay = "balanced" THEN Balanced(Sizes, m) ELSE Trickle(Sizes, m)
Complete ==
  out = "ok" => /\ used = nchunks
                /\ root[1] \in store

\* In the order of the source, and no more than was read.
RECURSIVE Leaves(_)
Leaves(t) == IF t.leaf THEN (IF t.n = 0 THEN <<>> ELSE <<t.n>>)
             ELSE FoldLeft(LAMBDA a, c : a \o Leaves(c), <<>>, t.c)
InOrder == ~Same => \A t \in store :
             LET s == Leaves(t) IN \A i \in 1..Len(s) : s[i] = s[1] + i - 1 /\ s[i] <= used

Ends == <>(out # "run")
==============================================================================
