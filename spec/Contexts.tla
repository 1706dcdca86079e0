------------------------------ MODULE Contexts ------------------------------
(***************************************************************************)
(* Operations and their contexts.  Blocks that an operation needs may not  *)
(* arrive; it then waits, for as long as its context lasts.  Whatever the  *)
(* operation: it ends once its context does; it either gives the right     *)
(* answer or an error, and an error only because its context ended; and an *)
(* operation that ended that way leaves things as they were, ready for the *)
(* next one with a context of its own.                                     *)
(***************************************************************************)
EXTENDS DagModifier, FiniteSets

\* How an operation may end: e.res says whether it came back at all.
Came(e) == e.res = "ok"
Gave(e) == e.err \in {"nil", "EOF", "notexist"}   \* an answer
GaveUp(e) == ~Gave(e) /\ e.cancelled

\* Entries of a directory: <<name, node>> pairs.
Named(es, n) == {x \in es : x[1] = n}
With(es, n, v) == (es \ Named(es, n)) \cup {<<n, v>>}
Distinct(list) == Len(list) = Cardinality(ToSet(list))

\* An answer is right, whatever happened on the way.
DirAnswer(es, e) ==
  CASE e.op = "add"    -> e.err = "nil"
    [] e.op = "remove" -> e.err = (IF Named(es, e.name) = {} THEN "notexist" ELSE "nil")
    [] e.op \in {"find", "resolve"} ->
         IF Named(es, e.name) = {} THEN e.err = "notexist"
         ELSE e.err = "nil" /\ <<e.name, e.val>> \in es
    [] e.op \in {"links", "each", "view"} -> e.err = "nil" /\ Distinct(e.list) /\ ToSet(e.list) = es
    [] e.op = "enum" ->
         \* Who gives up listening is not told why the listing ends.
         /\ e.err = "nil" /\ Distinct(e.list) /\ ToSet(e.list) \subseteq es
         /\ ~e.cancelled => ToSet(e.list) = es
DirPartial(es, e) == Distinct(e.list) /\ ToSet(e.list) \subseteq es
AfterDir(es, e) ==
  CASE e.op = "add" /\ e.err = "nil"    -> With(es, e.name, e.node)
    [] e.op = "remove" /\ e.err = "nil" -> es \ Named(es, e.name)
    [] OTHER -> es

\* Reading, at position f.off of f.c.
ReadAnswer(f, e) ==
  CASE e.op \in {"Read", "CtxReadFull"} ->
         /\ ReadOK(f, e.n, e.got, e.err)
         /\ e.err = "nil" => Len(e.got) = e.n
    [] e.op = "WriteTo" -> e.err = "nil" /\ e.got = From(f.c, f.off)
    [] e.op = "Seek" -> e.err = "nil" /\ e.ret = e.n
ReadPartial(f, e) == IsPrefix(e.got, From(f.c, f.off))
\* Where a failed Seek leaves the reader, only the reader can tell.
AfterReading(f, e) ==
  IF e.op = "Seek" THEN [f EXCEPT !.off = IF Gave(e) THEN e.n ELSE e.pos]
  ELSE [f EXCEPT !.off = @ + Len(e.got)]

\* The answers of a modifier; when its own context has ended, it is of no
\* further use.
ModAnswer(f, e) ==
  CASE e.op \in {"Read", "CtxReadFull"} -> ReadOK(f, e.n, e.got, e.err)
    [] e.op = "GetNode" -> e.err = "nil" /\ e.got = f.c
    [] OTHER -> e.err = "nil"
AfterMod(f, e) ==
  CASE e.op \in {"Read", "CtxReadFull"} -> [f EXCEPT !.off = @ + Len(e.got)]
    [] ~Gave(e) -> f
    [] e.op = "WriteAt"  -> Written(f, e.off, e.d)
    [] e.op = "Seek"     -> AfterSeek(f, e.off)
    [] e.op = "Truncate" -> AfterTruncate(f, e.off)
    [] OTHER -> f
=============================================================================
