------------------------------ MODULE ModBuffer ------------------------------
(***************************************************************************)
(* How a DagModifier works: writes are gathered in a buffer that is put    *)
(* into the tree, at the place it started from, before anything looks at   *)
(* the tree or when it gets too long; a reader is kept open between reads. *)
(* (The tree is a sequence of bytes here: how it is edited is the matter   *)
(* of TreeEdit.tla.)                                                       *)
(*                                                                         *)
(* Checked: it is the byte array with a cursor of DagModifier.tla (C08),   *)
(* also after fetches and stores that failed at any point (C22).           *)
(* Also generates histories: one per transition of this machine.           *)
(***************************************************************************)
EXTENDS DagModifier, FiniteSets, Json, TLC

CONSTANTS MaxLen,    \* longest file
          BufMax,    \* longer buffers are written out
          MaxCalls,  \* 0: any number
          Faults,    \* whether fetches and stores fail
          Flaw, Emit

VARIABLES file,      \* the tree
          buf,       \* <<>> or <<bytes>>
          start,     \* where the buffer goes
          cur,       \* position
          rd,        \* <<>> or <<content, position>>: the open reader
          ans, call, \* the last call and its answer
          abs,       \* the byte array with a cursor
          hist
vars == <<file, buf, start, cur, rd, ans, call, abs, hist>>
View == <<file, buf, start, cur, rd, abs>>
\* For histories, what the bytes are doesn't matter.
GenView == <<Len(file), IF buf = <<>> THEN -1 ELSE Len(buf[1]), start, cur, rd # <<>>>>

Init == /\ file \in {[i \in 1..n |-> 1] : n \in {0, 2, 4}}
        /\ buf = <<>> /\ start = 0 /\ cur = 0 /\ rd = <<>>
        /\ ans = [err |-> "nil"] /\ call = <<"none">>
        /\ abs = Fresh(file) /\ hist = <<(<<"B", Len(file)>>)>>

(* The state of the machine as a value, and its operations as functions:   *)
S == [file |-> file, buf |-> buf, start |-> start, cur |-> cur, rd |-> rd]

Sz(s) == IF s.buf # <<>> /\ Len(s.buf[1]) + s.start > Len(s.file)
         THEN Len(s.buf[1]) + s.start ELSE Len(s.file)
Expand(s, n) == [s EXCEPT !.file = Pad(@, n), !.rd = <<>>]
Sync(s) ==
  IF s.buf = <<>> THEN s
  ELSE LET b == s.buf[1]
           s1 == IF Len(s.file) < s.start THEN Expand(s, s.start) ELSE s
       IN  [s1 EXCEPT !.file = Overlay(@, s.start, b), !.start = @ + Len(b), !.buf = <<>>, !.rd = <<>>]
Write(s, d) ==
  LET s1 == [s EXCEPT !.rd = IF Flaw = "stale" THEN @ ELSE <<>>,
                      !.start = IF s.buf = <<>> THEN s.cur ELSE @,
                      !.buf = IF s.buf = <<>> THEN <<d>> ELSE <<@[1] \o d>>,
                      !.cur = @ + Len(d)]
  IN  IF Len(s1.buf[1]) > BufMax THEN Sync(s1) ELSE s1
WriteAt(s, d, o) ==
  LET s1 == IF s.buf # <<>> /\ o = s.start /\ (Len(d) >= Len(s.buf[1]) \/ Flaw = "shorter")
            THEN [s EXCEPT !.buf = <<(<<>>)>>, !.cur = s.start]
            ELSE IF o # s.cur
            THEN LET s2 == IF o > Sz(s) THEN Expand(s, Len(s.file) + o - Sz(s)) ELSE s
                 IN  [Sync(s2) EXCEPT !.start = o, !.cur = o]
            ELSE s
  IN  Write(s1, d)
Prep(s) == LET s1 == Sync(s) IN IF s1.rd = <<>> THEN [s1 EXCEPT !.rd = <<(<<s1.file, s1.cur>>)>>] ELSE s1
SeekTo(s, t) ==
  LET s1 == Sync(s)
      s2 == IF t > Sz(s1) THEN Expand(s1, t) ELSE s1
  IN  [s2 EXCEPT !.cur = t, !.start = t, !.rd = IF @ = <<>> THEN @ ELSE <<(<<@[1][1], t>>)>>]
Trunc(s, n) ==
  LET s1 == Sync(s)
  IN  IF n = Len(s1.file) THEN s1
      ELSE [s1 EXCEPT !.file = Cut(@, n), !.rd = <<>>]

Becomes(s) == /\ file' = s.file /\ buf' = s.buf /\ start' = s.start /\ cur' = s.cur /\ rd' = s.rd

Do(c, s, a, f) ==
  /\ MaxCalls = 0 \/ Len(hist) <= MaxCalls
  /\ Becomes(s)
  /\ call' = c /\ ans' = a
  /\ abs' = [f EXCEPT !.dirty = s.buf # <<>>]
  /\ hist' = Append(hist, c)
  /\ Emit => PrintT("GEN" \o ToJson(hist'))

(* Failures.  What a flush that fails leaves: the gap may have been filled  *)
(* already, the buffer is still there.                                      *)
Drop(s) == [s EXCEPT !.rd = <<>>]
FailSync(s) ==
  IF ~Faults \/ s.buf = <<>> THEN {}
  ELSE {Drop(x) : x \in
         {s} \cup (IF Len(s.file) < s.start THEN {Expand(s, s.start)} ELSE {})
             \cup (IF Flaw = "consumed" THEN {[s EXCEPT !.buf = <<(<<>>)>>]} ELSE {})
             \cup (IF Flaw = "halfway" THEN 
                    {[s EXCEPT !.file = Overlay(@, s.start, Cut(s.buf[1], 1)),
                               !.buf = <<SubSeq(s.buf[1], 2, Len(s.buf[1]))>>]} ELSE {})}

\* Every way an operation can fail.
FailWrite(s, d) ==
  LET s1 == [Drop(s) EXCEPT !.start = IF s.buf = <<>> THEN s.cur ELSE @,
                            !.buf = IF s.buf = <<>> THEN <<d>> ELSE <<@[1] \o d>>,
                            !.cur = @ + Len(d)]
  IN  IF Len(s1.buf[1]) > BufMax THEN FailSync(s1) ELSE {}
FailWriteAt(s, d, o) ==
  IF ~Faults \/ (s.buf # <<>> /\ o = s.start /\ Len(d) >= Len(s.buf[1])) \/ o = s.cur THEN {}
  ELSE LET gap == o > Sz(s)
           s2 == IF gap THEN Expand(s, Len(s.file) + o - Sz(s)) ELSE s
       IN  (IF gap THEN {s} ELSE {}) \cup FailSync(s2)
FailRead(s) == IF ~Faults THEN {} ELSE FailSync(s) \cup {Sync(s)}
FailSeek(s, t) ==
  IF ~Faults THEN {}
  ELSE LET s1 == Sync(s) IN
       FailSync(s) \cup (IF t > Sz(s1) THEN {s1} ELSE {})
                   \cup (IF s1.rd # <<>> THEN
                           {IF Flaw = "moved" THEN [s1 EXCEPT !.cur = t] ELSE Drop(s1)} ELSE {})
FailTrunc(s, n) ==
  IF ~Faults THEN {}
  ELSE FailSync(s) \cup (IF n # Len(Sync(s).file) THEN {Drop(Sync(s))} ELSE {})

\* As in TraceModifier.tla: an operation that goes past the end may have
\* extended the file.
Ext(f, s, t) == IF Sz(s) > Len(f.c) /\ Sz(s) <= t THEN [f EXCEPT !.c = Pad(f.c, Sz(s))] ELSE f
Fail(c, S2, F(_)) == \E s \in S2 : Do(<<"fail", c>>, s, [err |-> "other"], F(s))

Bytes == {<<>>, <<2>>, <<2, 3>>, <<3, 2, 3>>}

\* (An empty write past the end may or may not extend the file: left out.)
DoWrite == \E d \in Bytes : (d # <<>> \/ cur <= Sz(S)) /\ cur + Len(d) <= MaxLen /\
    \/ Do(<<"Write", Len(d)>>, Write(S, d), [err |-> "nil"], Written(abs, abs.off, d))
    \/ Fail("Write", FailWrite(S, d), LAMBDA s : Written(abs, abs.off, d))
DoWriteAt == \E d \in Bytes, o \in 0..MaxLen :
    /\ o + Len(d) <= MaxLen /\ (d # <<>> \/ o <= Sz(S))
    /\ \/ Do(<<"WriteAt", Len(d), o>>, WriteAt(S, d, o), [err |-> "nil"], Written(abs, o, d))
       \/ Fail("WriteAt", FailWriteAt(S, d, o), LAMBDA s : Ext(abs, s, o))
DoRead == \E n \in 0..2 :
    LET s == Prep(S)
        got == LET r == From(s.rd[1][1], s.rd[1][2]) IN SubSeq(r, 1, IF n < Len(r) THEN n ELSE Len(r))
        err == IF Len(got) = n THEN "nil" ELSE "EOF"
    IN  Do(<<"Read", n>>, [s EXCEPT !.cur = @ + Len(got), !.rd = <<(<<@[1][1], @[1][2] + Len(got)>>)>>],
           [err |-> err, got |-> got, n |-> n], AfterRead(abs, got))
FailedRead == Fail("Read", FailRead(S), LAMBDA s : abs)
DoSeek == \E w \in 0..2, o \in -3..MaxLen :
    LET t == CASE w = 0 -> o [] w = 1 -> Sync(S).cur + o [] w = 2 -> Sz(Sync(S)) + o
    IN  /\ t \in 0..MaxLen
        /\ w = 1 => o \in {-2, 0, 1}
        /\ w = 2 => o \in {-1, 0, 2}
        /\ \/ Do(<<"Seek", w, o>>, SeekTo(S, t), [err |-> "nil", ret |-> t],
                 AfterSeek(abs, Target(abs, o, w)))
           \/ Fail("Seek", FailSeek(S, t), LAMBDA s : Ext(abs, s, t))
DoTruncate == \E n \in 0..MaxLen :
    \/ Do(<<"Truncate", n>>, Trunc(S, n), [err |-> "nil"], AfterTruncate(abs, n))
    \/ Fail("Truncate", FailTrunc(S, n), LAMBDA s : Ext(abs, s, n))
DoSync == Fail("Sync", FailSync(S), LAMBDA s : abs) \/ Do(<<"Sync">>, Sync(S), [err |-> "nil"], Flushed(abs))
DoGetNode == Do(<<"GetNode">>, Sync(S), [err |-> "nil", got |-> Sync(S).file], Flushed(abs))

Next == DoWrite \/ DoWriteAt \/ DoRead \/ FailedRead \/ DoSeek \/ DoTruncate \/ DoSync \/ DoGetNode
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* What there is, once written out, is what there should be.
Content == /\ Sync(S).file = abs.c
           /\ Sz(S) = Len(abs.c)
           /\ cur = abs.off
\* Answers, checked against the state before.
Answers ==
  [][LET f == abs IN
     CASE call'[1] = "Read" -> ReadOK(f, ans'.n, ans'.got, ans'.err)
       [] call'[1] = "Seek" -> ans'.ret = Target(f, call'[3], call'[2])
       [] call'[1] = "GetNode" -> ans'.got = f.c
       [] OTHER -> TRUE]_vars
\* An open reader is one on the file as it is, at the position.
Reader == rd # <<>> => rd[1] = <<file, cur>> /\ buf = <<>>
==============================================================================
