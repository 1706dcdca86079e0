----------------------------- MODULE TraceImport -----------------------------
(***************************************************************************)
(* Conformance of recorded imports and appends with Layout and FileTree.   *)
(* The state is the file built so far (appends continue it).  Each event   *)
(* is a call to the importer with everything it was given and everything   *)
(* it produced; PROP selects the properties to decide.                     *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IOEnv.PROP
P(ids) == PROP \in ids

VARIABLES l,      \* next event
          file,   \* content of the file that is appended to
          root    \* its identity
vars == <<l, file, root>>

e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ file = <<>> /\ root = 0

ChunksOf(n, size) == [i \in 1..CeilDiv(n, size) |-> IF i * size <= n THEN size ELSE n - (i-1) * size]

NBytes(x) == Len(x.data) * x.U

\* Chunks are as many as the size splitter has to make: known in advance.
WantChunks(x) == IF x.split = "size" THEN ChunksOf(NBytes(x), x.csize) ELSE x.chunks

TooBig(x) == \E i \in 1..Len(x.chunks) : x.chunks[i] > x.limit

ImportOK(x) ==
  LET sizes == WantChunks(x) IN
  /\ P({"C01"}) =>
       /\ x.got = x.data
       /\ x.size = NBytes(x)
       /\ x.stored /\ WellFormed(x.tree)
       /\ Bytes(x.tree) = NBytes(x)
       /\ Sum(x.chunks) = NBytes(x)
       /\ ~x.fault /\ ~TooBig(x)
  /\ P({"C02"}) /\ x.layout = "balanced" =>
       /\ Shape(x.tree) = Balanced(sizes, x.ml)
       /\ x.prev > 0 => x.prev = x.root
  /\ P({"C03"}) /\ x.layout = "trickle" =>
       /\ Shape(x.tree) = Trickle(sizes, x.ml)
       /\ x.prev > 0 => x.prev = x.root
  /\ P({"C07"}) =>
       /\ WellFormed(x.tree) /\ SizesOK(x.tree)
       /\ x.size = Bytes(x.tree)
  /\ P({"C20"}) =>
       /\ PrefixOK(x.tree, x.ver, x.mh)
       /\ LeavesAre(x.tree, x.raw /\ ~(x.layout = "trickle" /\ sizes = <<>>))
       /\ Types(x.tree) \subseteq {<<"raw", "none">>, <<"node", "File">>,
             <<"leaf", IF x.layout = "trickle" /\ sizes # <<>> THEN "Raw" ELSE "File">>}

\* An import succeeds, or fails because of a fault or a chunk over the limit.
Import ==
  /\ Is("Import")
  /\ CASE e.res = "ok"  -> ImportOK(e)
       [] e.res = "err" -> P({"C01"}) => (e.fault \/ TooBig(e))
       [] OTHER -> ~P({"C01"})
  /\ UNCHANGED <<file, root>>

Base ==
  /\ Is("Base")
  /\ file' = e.data
  /\ root' = IF e.res = "ok" THEN e.root ELSE 0

AppendOK(x) ==
  /\ P({"C04"}) =>
       /\ x.got = file \o x.add
       /\ x.size = Len(file) + Len(x.add)
       /\ WellFormed(x.tree) /\ SizesOK(x.tree)
       /\ TrickleOK(Shape(x.tree), x.ml, -1)
       /\ x.verify = "nil"
       /\ ~x.fault
       /\ x.old = file
  /\ P({"C07"}) => WellFormed(x.tree) /\ SizesOK(x.tree) /\ x.size = Bytes(x.tree)
  /\ P({"C20"}) => /\ PrefixOK(x.tree, x.ver, x.mh)
                   /\ Bytes(x.tree) > 0 => LeavesAre(x.tree, x.raw)
                   /\ Types(x.tree) \subseteq {<<"raw", "none">>, <<"node", "File">>, <<"leaf", "Raw">>}
                        \cup (IF Bytes(x.tree) = 0 THEN {<<"leaf", "File">>} ELSE {})

Append_ ==
  /\ Is("Append")
  /\ root = 0 \/ e.before = root
  /\ CASE e.res = "ok"  -> /\ AppendOK(e)
                           /\ file' = file \o e.add
                           /\ root' = e.root
       [] e.res = "err" -> /\ P({"C04"}) => e.fault /\ e.old = file
                           /\ UNCHANGED <<file, root>>
       [] OTHER -> ~P({"C04"}) /\ UNCHANGED <<file, root>>

\* References of an import without copying: contiguous and in order.
RefsOK(x) ==
  LET n == Len(x.refs)
      RECURSIVE Off(_)
      Off(i) == IF i = 1 THEN 0 ELSE Off(i-1) + x.refs[i-1].len
  IN  /\ \A i \in 1..n : /\ x.refs[i].off = Off(i)
                         /\ x.refs[i].path /\ x.refs[i].stat
                         /\ x.refs[i].d = SubSeq(x.data, Off(i) + 1, Off(i) + x.refs[i].len)
      /\ Sum([i \in 1..n |-> x.refs[i].len]) = Len(x.data)
      \* The empty file is a single leaf without data: nothing to refer to.
      /\ n = IF x.chunks = <<>> THEN 0 ELSE x.nraw

NoCopy ==
  /\ Is("NoCopy")
  /\ P({"C21"}) =>
      CASE e.res = "ok"  -> /\ e.nocopy => e.haspath
                            /\ IF e.nocopy /\ e.raw THEN RefsOK(e) ELSE e.refs = <<>>
                            /\ e.same /\ e.got = e.data
        [] e.res = "err" -> e.nocopy /\ ~e.haspath
        [] OTHER -> FALSE
  /\ UNCHANGED <<file, root>>

Next == Import \/ Base \/ Append_ \/ NoCopy

Spec == Init /\ [][Next]_vars

Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
