---------------------------- MODULE TraceFSNode ----------------------------
(* Recorded histories of UnixFS nodes, and of the functions that encode and *)
(* decode them, against FSNode.tla (C17).                                   *)
EXTENDS FSNode, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, n
vars == <<l, n>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

None == [type |-> "", data |-> <<>>, bs |-> <<>>, ht |-> Zero64, fan |-> Zero64]
Init == l = 1 /\ n = None

New == /\ Is("New")
       /\ n' = [type |-> e.type, data |-> e.data, bs |-> e.bs, ht |-> e.ht, fan |-> e.fan]
       /\ Shows(e.seen, n')

Op ==
  /\ Is("Op")
  /\ e.res = "ok" /\ e.err = "nil"
  /\ n' = CASE e.op = "SetData"             -> SetData(n, e.data)
            [] e.op = "AddBlockSize"        -> AddBlock(n, e.x)
            [] e.op = "RemoveBlockSize"     -> RemoveBlock(n, e.i)
            [] e.op = "RemoveAllBlockSizes" -> RemoveBlocks(n)
            [] e.op = "Roundtrip"           -> n
  /\ Shows(e.seen, n')
  /\ e.op = "Roundtrip" => Encodes(e.enc, n)

(* The helpers.  fs is what the encoding has as file size.                  *)
Want(h) ==
  CASE h.which = "FilePBData"    -> [type |-> "File", data |-> h.data, fs |-> h.x, ht |-> Zero64, fan |-> Zero64]
    [] h.which = "EmptyFileNode" -> [type |-> "File", data |-> <<>>, fs |-> Zero64, ht |-> Zero64, fan |-> Zero64]
    [] h.which \in {"FolderPBData", "EmptyDirNode"}
                                 -> [type |-> "Directory", data |-> <<>>, fs |-> Zero64, ht |-> Zero64, fan |-> Zero64]
    [] h.which = "WrapData"      -> [type |-> "Raw", data |-> h.data, fs |-> Num(Len(h.data)), ht |-> Zero64, fan |-> Zero64]
    [] h.which = "SymlinkData"   -> [type |-> "Symlink", data |-> h.data, fs |-> Zero64, ht |-> Zero64, fan |-> Zero64]
    [] h.which = "HAMTShardData" -> [type |-> "HAMTShard", data |-> h.data, fs |-> Zero64, ht |-> h.y, fan |-> h.x]
    [] h.which = "BytesForMetadata" -> [type |-> "Metadata", data |-> <<>>, fs |-> h.x, ht |-> Zero64, fan |-> Zero64]

\* What FSNode's accessor gives as size.
WantSize(w) == CASE w.type \in {"File", "Raw"} -> w.fs
                 [] w.type = "Symlink" -> Num(Len(w.data))
                 [] OTHER -> Zero64

FSNOK(s, w, md) == /\ s.type = w.type /\ (md \/ s.data = w.data) /\ s.bs = <<>>
                   /\ s.fs = WantSize(w) /\ s.ht = w.ht /\ s.fan = w.fan

Helper ==
  /\ Is("Helper")
  /\ e.res = "ok" /\ e.same
  /\ LET w  == Want(e)
         md == w.type = "Metadata"
     IN
     /\ e.links = 0
     /\ e.raw.type = w.type /\ (md \/ e.raw.data = w.data) /\ e.raw.bs = <<>>
     /\ e.raw.fs = w.fs /\ e.raw.ht = w.ht /\ e.raw.fan = w.fan
     /\ e.unerr = "nil" /\ e.un = e.raw.data
     /\ IF w.type \in {"File", "Raw", "Symlink"} THEN e.sizeerr = "nil" /\ e.size = WantSize(w) ELSE e.sizeerr # "nil"
     /\ IF md THEN e.mderr = "nil" /\ e.mdmime = e.mime /\ e.mdsize = e.x ELSE e.mderr # "nil"
     /\ IF w.type \in {"File", "Raw"} THEN e.rderr = "nil" /\ e.rd = w.data ELSE e.rderr # "nil"
     /\ FSNOK(e.fsn, w, md) /\ FSNOK(e.exn, w, md)
     /\ e.fromtype = w.type
  /\ n' = n

Next == New \/ Op \/ Helper
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
