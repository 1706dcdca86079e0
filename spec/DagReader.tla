----------------------------- MODULE DagReader -----------------------------
(***************************************************************************)
(* What a DagReader is for its user: a cursor over the bytes of a file,    *)
(* like a reader over an array in memory, on top of a block store whose    *)
(* fetches may fail.                                                       *)
(*                                                                         *)
(* debt bounds the errors that may still come from failed fetches: blocks  *)
(* are fetched ahead of their use (10 per level of the tree), and a fetch  *)
(* that failed is reported when its block is needed, once.  With no failed *)
(* fetch and no cancelled context there is no error to report (debt = 0).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES data,     \* the bytes of the file
          pos,      \* the position
          debt,     \* errors that may be reported
          depth,    \* height of the tree
          faults    \* fetches that failed so far
vars == <<data, pos, debt, depth, faults>>

Big == 1073741824   \* positions are cut here
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b

Size == Len(data)
Rest == IF pos >= Size THEN <<>> ELSE SubSeq(data, pos + 1, Size)

\* Errors allowed in this call, and after it.
Ahead == 11 * (depth + 1)
Debt(f) == IF f > faults THEN Ahead ELSE debt

Open(d, dp) == /\ data' = d /\ pos' = 0 /\ debt' = 0 /\ depth' = dp /\ faults' = 0

\* A call that ends with an error it isn't responsible for.
Excused(f, other) == Debt(f) > 0 \/ other
Pay(f, failed) == /\ faults' = f
                  /\ debt' = IF failed THEN Upper(Debt(f) - 1, 0) ELSE Debt(f)

\* n: asked for, got: delivered, full: the call promises to fill the buffer.
Read(n, cnt, got, err, full, f, ctx) ==
  /\ cnt = Len(got)
  /\ cnt <= n
  /\ IsPrefix(got, Rest)
  /\ CASE err = "nil" -> /\ cnt = Lower(n, Len(Rest))
                         /\ cnt < n => cnt > 0 /\ ~full
       [] err = "EOF" -> cnt = Len(Rest)
       [] OTHER       -> Excused(f, ctx)
  /\ pos' = pos + cnt
  /\ Pay(f, err = "other")
  /\ UNCHANGED <<data, depth>>

Target(off, wh) == CASE wh = 0 -> off
                     [] wh = 1 -> pos + off
                     [] wh = 2 -> Size + off
                     [] OTHER  -> -1

\* newpos is where the reader says it is afterwards.
Seek(off, wh, ret, err, newpos, f, ctx) ==
  /\ IF Target(off, wh) < 0
     THEN /\ err # "nil"
          /\ pos' = pos
     ELSE CASE err = "nil" -> /\ pos' = Lower(Target(off, wh), Big)
                              /\ ret = pos'
            [] OTHER       -> /\ Excused(f, ctx)
                              /\ newpos >= 0
                              /\ pos' = newpos
  /\ Pay(f, err # "nil" /\ Target(off, wh) >= 0)
  /\ UNCHANGED <<data, depth>>

\* lim: bytes the writer accepts before it fails (-1: it doesn't).
WriteTo(lim, cnt, got, err, f, ctx) ==
  /\ cnt = Len(got)
  /\ IsPrefix(got, Rest)
  /\ IF err = "nil" THEN got = Rest
     ELSE \/ lim >= 0 /\ cnt = lim /\ lim < Len(Rest)
          \/ Excused(f, ctx)
  /\ pos' = pos + cnt
  /\ Pay(f, err # "nil" /\ ~(lim >= 0 /\ cnt = lim))
  /\ UNCHANGED <<data, depth>>
=============================================================================
