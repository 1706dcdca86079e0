----------------------------- MODULE TraceHuge -----------------------------
(* Huge files, read (C05) and edited (C08), and their blocks (C07). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

INSTANCE HugeFile WITH B <- 1048576, Limit <- 1024

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IOEnv.PROP
P(ids) == PROP \in ids

VARIABLES l, snaps, s, pos, f, off
vars == <<l, snaps, s, pos, f, off>>

e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

None == [size |-> <<0, 0>>, m |-> <<>>]
Init == l = 1 /\ snaps = <<>> /\ s = 1 /\ pos = <<0, 0>> /\ f = None /\ off = <<0, 0>>

Huge ==
  /\ Is("Huge")
  /\ snaps' = <<[size |-> e.size, m |-> <<Run(<<0, 0>>, e.size, e.v)>> \o e.marks]>>
  /\ TreeOK(e.nodes, e.size)   \* so the harness made it right
  /\ s' = 1 /\ pos' = <<0, 0>> /\ f' = None /\ off' = <<0, 0>>

\* What is read of the file as it was, and of what the edits made of it.
Judged(k) == (P({"C05"}) /\ k = 1) \/ (P({"C08"}) /\ k > 1)
Open ==
  /\ Is("Open")
  /\ Judged(e.s) => e.res = "ok" /\ e.err = "nil" /\ e.size = snaps[e.s].size
  /\ s' = e.s /\ pos' = <<0, 0>>
  /\ UNCHANGED <<snaps, f, off>>

Seek ==
  /\ Is("Seek")
  /\ LET t == Target(snaps[s].size, pos, e.off, e.neg, e.wh)
     IN /\ Judged(s) => /\ e.res = "ok"
                       /\ IF t = <<>> THEN e.err # "nil" ELSE e.err = "nil" /\ e.ret = t
        /\ pos' = IF t = <<>> THEN pos ELSE t
  /\ UNCHANGED <<snaps, s, f, off>>

Read ==
  /\ Is("Read")
  /\ Judged(s) =>
       /\ e.res = "ok" /\ e.cnt = Len(e.got)
       /\ e.got = Bytes(snaps[s], pos, e.n)
       /\ CASE e.err = "nil" -> e.cnt = e.n \/ (e.cnt > 0 /\ ~e.full)
            [] e.err = "EOF" -> e.cnt < e.n \/ Le(snaps[s].size, Add(pos, Pr(e.cnt)))
            [] OTHER -> FALSE
  /\ pos' = Add(pos, Pr(e.cnt))
  /\ UNCHANGED <<snaps, s, f, off>>

Rest ==
  /\ Is("Rest")
  /\ Judged(s) =>
       /\ e.res = "ok" /\ e.err = "nil" /\ e.cnt = Len(e.got)
       /\ e.got = Bytes(snaps[s], pos, 5000)
  /\ pos' = Add(pos, Pr(e.cnt))
  /\ UNCHANGED <<snaps, s, f, off>>

Modify ==
  /\ Is("Modify")
  /\ P({"C08"}) => e.res = "ok" /\ e.err = "nil"
  /\ f' = snaps[e.s] /\ off' = <<0, 0>>
  /\ UNCHANGED <<snaps, s, pos>>

Op ==
  /\ Is("Op")
  /\ LET t == Target(f.size, off, e.off, e.neg, e.wh)
         at == IF e.op = "Write" THEN off ELSE e.off
     IN /\ P({"C08"}) =>
            /\ e.res = "ok"
            /\ CASE e.op \in {"WriteAt", "Write"} -> e.err = "nil" /\ e.n = Len(e.d)
                 [] e.op = "Seek" -> e.err = "nil" /\ e.ret = t
                 [] e.op = "Read" -> /\ e.got = Bytes(f, off, e.n)
                                     /\ CASE e.err = "nil" -> Len(e.got) = e.n \/ e.got # <<>>
                                          [] e.err = "EOF" -> Len(e.got) < e.n \/ Le(f.size, Add(off, Pr(Len(e.got))))
                                          [] OTHER -> FALSE
                 [] OTHER -> e.err = "nil"
        /\ f' = CASE e.op \in {"WriteAt", "Write"} -> Put(f, at, e.d)
                  [] e.op = "Truncate" -> Cut(f, e.off)
                  [] e.op = "Seek" -> Grow(f, t)
                  [] OTHER -> f
        /\ off' = CASE e.op \in {"WriteAt", "Write"} -> Add(at, Pr(Len(e.d)))
                    [] e.op = "Seek" -> t
                    [] e.op = "Read" -> Add(off, Pr(Len(e.got)))
                    [] OTHER -> off
        /\ P({"C08"}) => e.size = f'.size
  /\ UNCHANGED <<snaps, s, pos>>

Node ==
  /\ Is("Node")
  /\ P({"C08"}) => e.res = "ok" /\ e.err = "nil"
  /\ P({"C07", "C08"}) /\ e.err = "nil" /\ e.res = "ok" => TreeOK(e.nodes, f.size)
  /\ snaps' = Append(snaps, f)
  /\ UNCHANGED <<s, pos, f, off>>

Next == Huge \/ Open \/ Seek \/ Read \/ Rest \/ Modify \/ Op \/ Node
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
