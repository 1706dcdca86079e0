---------------------------- MODULE DagModifier ----------------------------
(***************************************************************************)
(* What a DagModifier is for its user: a file, seen as a byte array, with  *)
(* a cursor.  Several of them may come from the same node; each of them    *)
(* goes its own way.                                                       *)
(*                                                                         *)
(* A modifier is [c: content, off: cursor, dirty: written since the last   *)
(* flush].  Operations are relations between a modifier, what it is asked, *)
(* what it answers, and the modifier afterwards.                           *)
(***************************************************************************)
EXTENDS ByteFile

Fresh(c) == [c |-> c, off |-> 0, dirty |-> FALSE]

Written(f, o, d) == [c |-> Overlay(f.c, o, d), off |-> o + Len(d), dirty |-> f.dirty \/ d # <<>>]

\* Reading, seeking, truncating, syncing and getting the node flush.
Flushed(f) == [f EXCEPT !.dirty = FALSE]

ReadOK(f, n, got, err) ==
  LET rest == From(f.c, f.off) IN
  /\ Len(got) <= n
  /\ IsPrefix(got, rest)
  /\ CASE err = "nil" -> Len(got) = n \/ (0 < Len(got) /\ got = rest)
       [] err = "EOF" -> got = rest
       [] OTHER -> FALSE
AfterRead(f, got) == [c |-> f.c, off |-> f.off + Len(got), dirty |-> FALSE]

Target(f, off, wh) == CASE wh = 0 -> off
                        [] wh = 1 -> f.off + off
                        [] wh = 2 -> Len(f.c) + off
                        [] OTHER  -> -1

\* Going past the end extends the file with zeros, at once.
AfterSeek(f, t) == [c |-> Pad(f.c, t), off |-> t, dirty |-> FALSE]

AfterTruncate(f, n) == [c |-> Cut(f.c, n), off |-> f.off, dirty |-> FALSE]
=============================================================================
