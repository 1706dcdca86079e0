------------------------------- MODULE Kinds -------------------------------
(***************************************************************************)
(* What every kind of object opens as.  An object is                       *)
(*   [k: "pb", "raw", "other" or "bad" (no unixfs data inside), t: type,   *)
(*    data, fs: declared size, links, kid: what the first link leads to,   *)
(*    ht, fan, bits, bf: hash type, width, ones and bytes of the bitfield] *)
(*                                                                         *)
(* An outcome is <<error, what it opened as>>; "some" stands for an error  *)
(* that has no name.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fail(err) == <<err, "none">>
Good(what) == <<"nil", what>>

Murmur3 == 34
Widths == {8, 16, 32, 64, 128, 256, 512, 1024}
ShardOK(o) == /\ o.ht = Murmur3
              /\ o.fan \in Widths
              /\ o.bf * 8 <= o.fan
              /\ o.bits = o.links

Shard(o) == IF ShardOK(o) THEN Good("dir") ELSE Fail("some")

\* The object that is read when this one is: metadata is looked through.
RECURSIVE Inner(_)
Inner(o) == IF o.k = "pb" /\ o.t = "Metadata" THEN Inner(o.kid) ELSE o
Through(o) == o.k = "pb" /\ o.t = "Metadata"

Reader(o) ==
  LET i == Inner(o) IN
  CASE i.k = "raw"   -> Good("file")
    [] i.k = "other" -> Fail("unknown")
    [] i.k # "pb"    -> Fail("some")      \* nothing there, missing or undecodable
    [] i.t \in {"File", "Raw"}            -> Good("file")
    [] i.t \in {"Directory", "HAMTShard"} -> Fail("isdir")
    [] i.t = "Symlink"                    -> Fail("symlink")
    [] OTHER                              -> Fail("type")

Dir(o) ==
  CASE o.k \in {"raw", "other"} -> Fail("notadir")
    [] o.k = "bad"              -> Fail("some")
    [] o.t = "Directory"        -> Good("dir")
    [] o.t = "HAMTShard"        -> Shard(o)
    [] OTHER                    -> Fail("notadir")

View(o) ==
  CASE o.k \in {"other", "bad"} -> Fail("some")
    [] o.k = "pb" /\ o.t \in {"Directory", "HAMTShard"} -> Dir(o)
    [] o.k = "pb" /\ o.t = "Symlink" -> Good("link")
    [] OTHER -> Reader(o)

Hamt(o) ==
  CASE o.k \in {"raw", "other"} -> Fail("notpb")
    [] o.k = "pb" /\ o.t = "HAMTShard" -> Shard(o)
    [] OTHER -> Fail("some")

Data(o) ==
  CASE o.k = "raw"   -> Good("data")
    [] o.k = "other" -> Fail("type")
    [] o.k = "pb" /\ o.t \in {"File", "Raw"} -> Good("data")
    [] OTHER -> Fail("some")

Extract(o) == IF o.k = "pb" THEN Good(o.t) ELSE Fail("some")
Modify(o)  == IF o.k = "other" THEN Fail("notunixfs") ELSE Good("mod")

Outcome(what, o) ==
  CASE what = "reader"  -> Reader(o)
    [] what \in {"dir", "basic"} -> Dir(o)
    [] what = "view"    -> View(o)
    [] what = "hamt"    -> Hamt(o)
    [] what = "data"    -> Data(o)
    [] what = "extract" -> Extract(o)
    [] what = "modify"  -> Modify(o)

\* Opening a file or a symlink shows its data and size.
ContentOK(what, o, got) ==
  CASE got.k = "file" -> LET i == Inner(o) IN got.size = i.fs /\ got.data = i.data
    [] got.k \in {"data", "link"} -> got.data = o.data
    [] what = "extract" -> got.data = o.data
    [] got.k = "dir" /\ what = "dir" ->
         got.links = o.links \/ (o.t = "HAMTShard" /\ got.links = -1)
    [] OTHER -> TRUE
=============================================================================
