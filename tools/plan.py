"""What each check runs: trace sets (driver scenario + trace specification),
design models, and generators of histories."""

SETS = {
    "context": {"scen": "context", "spec": "TraceContext.tla"},
    "handles": {"scen": "handles", "spec": "TraceHandles.tla"},
    "import": {"scen": "import", "spec": "TraceImport.tla"},
    "append": {"scen": "append", "spec": "TraceImport.tla"},
    "nocopy": {"scen": "nocopy", "spec": "TraceImport.tla"},
    "reader": {"scen": "reader", "spec": "TraceReader.tla"},
    "readerfault": {"scen": "readerfault", "spec": "TraceReader.tla"},
    "modifier": {"scen": "modifier", "spec": "TraceModifier.tla"},
    "dir": {"scen": "dir", "spec": "TraceDir.tla"},
    "dirfault": {"scen": "dirfault", "spec": "TraceDir.tla"},
    "hamt": {"scen": "hamt", "spec": "TraceDir.tla"},
    "hamtfault": {"scen": "hamtfault", "spec": "TraceDir.tla"},
    "enum": {"scen": "enum", "spec": "TraceEnum.tla"},
    "files": {"scen": "files", "spec": "TraceFiles.tla"},
    "filesfault": {"scen": "filesfault", "spec": "TraceFiles.tla"},
    "malformed": {"scen": "malformed", "spec": "TraceMalformed.tla"},
    "resolve": {"scen": "resolve", "spec": "TraceResolve.tla"},
    "fsnode": {"scen": "fsnode", "spec": "TraceFSNode.tla"},
    "fshelpers": {"scen": "fshelpers", "spec": "TraceFSNode.tla"},
    "verify": {"scen": "verify", "spec": "TraceVerify.tla"},
    "builder": {"scen": "builder", "spec": "TraceBuilder.tla"},
    "filedag": {"scen": "filedag", "spec": "TraceFileDag.tla"},
    "dirdag": {"scen": "dirdag", "spec": "TraceDirDag.tla"},
    "bigdir": {"scen": "bigdir", "spec": "TraceBigDir.tla"},
    "huge": {"scen": "huge", "spec": "TraceHuge.tla"},
    "locality": {"scen": "locality", "spec": "TraceLocality.tla"},
    "kinds": {"scen": "kinds", "spec": "TraceKinds.tla"},
    "modfault": {"scen": "modfault", "spec": "TraceModifier.tla"},
}
# The same histories, seen from the block store.
for _s in ("import", "append", "nocopy", "modifier", "modfault", "hamt", "hamtfault", "dir", "dirfault", "builder"):
    SETS[_s + "_store"] = {"scen": _s, "spec": "TraceStore.tla", "store": True}


def n(quick, thorough):
    return {"quick": quick, "thorough": thorough}


# Generators: every history of a specification, replayed in the real code.
#   variants: how many times each of them is replayed (other leaf formats, ...)
def gen(spec, set_name, quick, thorough, view=None, variants=None, timeout=300):
    s = {"Emit": "TRUE"}
    if view:
        s["VIEW"] = view
    return {"spec": spec + ".tla", "cfg": spec + ".cfg", "set_name": set_name, "timeout": timeout,
            "set": {"all": s, "quick": quick, "thorough": thorough},
            "variants": variants or {"quick": [0], "thorough": [0, 1, 2]}}


GENS = {
    "grid": gen("LayoutBuilder", "import", {"MaxChunks": 40}, {"MaxChunks": 300, "Widths": "{1, 2, 3, 4, 5, 6, 7}"}),
    "pieces": gen("TrickleAppend", "append", {"MaxLeaves": 15}, {"MaxLeaves": 21}),
    "walks": gen("ReaderWalk", "reader", {"MaxFaults": 0}, {"MaxFaults": 0, "Deep": "TRUE"}, "GenView"),
    "writes": gen("ModBuffer", "modifier", {"MaxLen": 5, "BufMax": 9}, {"MaxLen": 7, "BufMax": 9}, "GenView"),
    "tries": gen("HamtOps", "hamt", {"Pattern": 1, "Values": "{1}"}, {"Pattern": 3, "Values": "{1}"}, "GenView"),
    "tries2": gen("HamtOps", "hamt", {"Pattern": 2, "Values": "{1}"}, {"Pattern": 2, "Values": "{1, 2}"}, "GenView"),
    "tries_store": gen("HamtOps", "hamt_store", {"Pattern": 1, "Values": "{1}"}, {"Pattern": 3, "Values": "{1}"}, "GenView"),
    "writes_store": gen("ModBuffer", "modifier_store", {"MaxLen": 5, "BufMax": 9}, {"MaxLen": 7, "BufMax": 9}, "GenView"),
    "edits": gen("TreeEdit", "modifier", {}, {"Deep": "TRUE"}),
    "edits_store": gen("TreeEdit", "modifier_store", {}, {"Deep": "TRUE"}),
    # Each history with each of its first stores and fetches failing.
    "edits_fault": gen("TreeEdit", "modfault", {}, {"Deep": "TRUE"},
                       variants={"quick": [0, 1, 2, 3], "thorough": [0, 1, 2, 3, 4, 5, 6, 7]}),
    "edits_fault_store": gen("TreeEdit", "modfault_store", {}, {"Deep": "TRUE"},
                             variants={"quick": [0, 2, 3], "thorough": [0, 1, 2, 3, 4, 5, 6, 7]}),
    "writes_fault": gen("ModBuffer", "modfault", {"MaxLen": 4, "BufMax": 9}, {"MaxLen": 6, "BufMax": 9}, "GenView",
                        variants={"quick": [0, 1, 2], "thorough": [0, 1, 2, 3, 4, 5]}),
    "shapes": gen("FileWalk", "filedag", {"MaxCalls": 3}, {"Deep": "TRUE", "MaxCalls": 3}, "GenView"),
    "trees": gen("DirShape", "dirdag", {"MaxOps": 2}, {"MaxOps": 3}, "GenView"),
    "shares": gen("NodeAlias", "modifier", {}, {"Edits": 4}),
    "handles": gen("Handles", "handles", {}, {"Steps": 4}, variants={"quick": [0, 1, 2], "thorough": [0, 1, 2, 3]}),
    # The same with random faults, and with those the specification has.
    "sizes_fault": gen("DirSwitch", "dirfault", {"Ts": "{9, 14}", "Faults": "FALSE"}, {"Faults": "FALSE", "Lengths": 2},
                       variants={"quick": [0, 1], "thorough": [0, 1, 2, 3]}),
    "tries_fault": gen("HamtOps", "hamtfault", {"Pattern": 1, "Values": "{1}"}, {"Pattern": 3, "Values": "{1}"}, "GenView"),
    "sizes": gen("DirSwitch", "dir", {"Ts": "{9, 14}", "Faults": "FALSE"}, {"Faults": "FALSE", "Lengths": 2}),
}


# Design models: machines that work as the code does, checked against the
# specifications that the traces are checked against.
def mc(spec, quick, thorough, flaws=(), tag="", **kw):
    return dict({"spec": spec + ".tla", "cfg": spec + ".cfg", "set": {"quick": quick, "thorough": thorough},
                 "flaws": list(flaws), "tag": tag}, **kw)


BUILDER = mc("LayoutBuilder", {"MaxChunks": 40}, {"MaxChunks": 160, "Widths": "{1, 2, 3, 4, 5, 6}"}, ["late", "repeat", "swallow"])
BUILDER1 = mc("LayoutBuilder", {"MaxChunks": 30, "Same": "TRUE"}, {"MaxChunks": 120, "Same": "TRUE"}, [], "_same")
APPEND = mc("TrickleAppend", {"MaxLeaves": 18}, {"MaxLeaves": 30, "Widths": "{1, 2, 3, 4}"}, ["deep", "twice"])
WALK = mc("ReaderWalk", {}, {"Deep": "TRUE"}, ["skip", "stray", "uncounted"])
BUFFER = mc("ModBuffer", {"MaxLen": 4, "BufMax": 3}, {}, ["stale", "shorter"])
BUFFERF = mc("ModBuffer", {"MaxLen": 4, "BufMax": 3, "Faults": "TRUE"}, {"MaxLen": 5, "BufMax": 3, "Faults": "TRUE"}, ["consumed", "halfway", "moved"], "_faults")
TRIE = mc("HamtOps", {"Values": "{1}"}, {"Pattern": 4, "Values": "{1}"}, ["nocollapse", "loadedonly", "rootfirst"])
EDIT = mc("TreeEdit", {"Edits": 2}, {"Edits": 2, "Deep": "TRUE"}, ["first", "offset", "size", "late"])
ALIAS = mc("NodeAlias", {"Edits": 4}, {"Edits": 5}, ["base", "inplace", "array", "room", "handout"])
HANDLES = mc("Handles", {}, {"Steps": 4})
SHARDS = mc("ShardWalk", {}, {"Tree": 4}, ["early", "swallow", "stuck", "deaf"])
ENTRIES = mc("FilesIter", {}, {}, ["hasty", "lost", "deaf", "quiet"])
PREFETCH = mc("Prefetch", {}, {"Ops": 3, "N": 4}, ["handle", "nobody", "poisoned", "deaf"])

SWITCH = mc("DirSwitch", {}, {"Lengths": 3}, ["after", "before", "est", "replaced"])
FILEWALK = mc("FileWalk", {}, {"Deep": "TRUE"}, ["inline", "ignored", "unstuck", "early"])
DIRSHAPE = mc("DirShape", {}, {"Deep": "TRUE"}, ["lifted", "pruned", "kept", "ousted"])
HUGE = mc("HugeRef", {}, {"Edits": 3}, ["low", "high", "borrow", "under", "left"])
PRELOAD = mc("Preload", {}, {"Batch": 3, "Low": 2, "Deep": "TRUE"}, ["scan", "sizes", "deep", "eager", "restart"])

PLAN = {
    "C01": {"mc": [BUILDER], "gen": ["grid"], "sets": [("import", n(3000, 12000))]},
    "C02": {"mc": [BUILDER, BUILDER1], "gen": ["grid"], "sets": [("import", n(3000, 12000))]},
    "C03": {"mc": [BUILDER, BUILDER1], "gen": ["grid"], "sets": [("import", n(3000, 12000))]},
    "C04": {"mc": [APPEND], "gen": ["pieces"], "sets": [("append", n(1200, 6000))]},
    "C05": {"mc": [WALK, HUGE], "gen": ["walks"], "sets": [("reader", n(4000, 12000)), ("huge", n(1500, 12000))]},
    "C06": {"mc": [WALK], "sets": [("readerfault", n(4000, 12000))]},
    "C07": {"mc": [EDIT], "gen": ["pieces", "writes", "edits"], "sets": [("import", n(1500, 6000)), ("append", n(600, 3000)), ("modifier", n(2000, 6000)), ("huge", n(800, 6000))]},
    "C08": {"mc": [BUFFER, EDIT, HUGE], "gen": ["writes", "edits"], "sets": [("modifier", n(6000, 12000)), ("huge", n(1500, 12000))]},
    "C09": {"mc": [ALIAS], "gen": ["edits", "shares"], "sets": [("modifier", n(4000, 12000)), ("modfault", n(2000, 6000))]},
    "C10": {"mc": [BUILDER, TRIE, EDIT], "gen": ["tries_store", "writes_store", "edits_store", "edits_fault_store"],
            "sets": [("modfault", n(2500, 9000)), ("hamtfault", n(1200, 4000)), ("dirfault", n(600, 3000)),
                     ("import_store", n(800, 3000)), ("append_store", n(500, 2000)), ("nocopy_store", n(300, 2000)),
                     ("modifier_store", n(2500, 6000)), ("modfault_store", n(1500, 6000)), ("hamt_store", n(1500, 4000)),
                     ("hamtfault_store", n(800, 4000)), ("dir_store", n(800, 3000)), ("dirfault_store", n(600, 3000)),
                     ("builder_store", n(1000, 4000))]},
    "C11": {"mc": [TRIE], "gen": ["tries"], "sets": [("dir", n(2000, 6000)), ("hamt", n(1500, 4000)), ("dirfault", n(500, 2000)), ("bigdir", n(400, 800))]},
    "C12": {"mc": [TRIE], "gen": ["tries", "tries2"], "sets": [("hamt", n(2500, 6000)), ("dir", n(1000, 4000)), ("resolve", n(800, 3000)), ("bigdir", n(400, 800))]},
    "C13": {"mc": [SWITCH], "gen": ["sizes", "sizes_fault"], "sets": [("dir", n(3000, 8000)), ("dirfault", n(1200, 4000)), ("bigdir", n(400, 800))]},
    "C14": {"mc": [TRIE], "gen": ["tries_fault"], "sets": [("dirfault", n(2500, 6000)), ("hamtfault", n(1500, 4000))]},
    "C15": {"mc": [SHARDS], "sets": [("enum", n(2500, 6000)), ("hamtfault", n(500, 2000)), ("bigdir", n(160, 400))]},
    "C16": {"mc": [ENTRIES], "sets": [("files", n(1200, 4000)), ("filesfault", n(1500, 4000)), ("bigdir", n(120, 300))]},
    "C17": {"sets": [("fsnode", n(4000, 12000)), ("fshelpers", n(3000, 8000))]},
    "C18": {"sets": [("malformed", n(16000, 40000))]},
    "C19": {"sets": [("resolve", n(6000, 20000))]},
    "C20": {"mc": [EDIT], "gen": ["edits"], "sets": [("import", n(1500, 6000)), ("append", n(600, 3000)), ("modifier", n(2500, 6000)), ("dir", n(800, 3000)), ("hamt", n(500, 2000))]},
    "C21": {"sets": [("nocopy", n(3000, 12000))]},
    "C22": {"mc": [BUFFERF], "gen": ["edits_fault", "writes_fault"], "sets": [("modfault", n(6000, 15000))]},
    "C23": {"sets": [("verify", n(16000, 60000))]},
    "C24": {"sets": [("builder", n(16000, 60000))]},
    "C26": {"mc": [HANDLES, ALIAS], "gen": ["handles"], "sets": [("handles", n(4000, 12000))]},
    "C27": {"mc": [PREFETCH, SHARDS], "sets": [("context", n(6000, 20000))]},
    "C28": {"mc": [FILEWALK], "gen": ["shapes"], "sets": [("filedag", n(12000, 60000))]},
    "C29": {"mc": [DIRSHAPE], "gen": ["trees"], "sets": [("dirdag", n(10000, 50000))]},
    "C30": {"mc": [PRELOAD], "sets": [("locality", n(12000, 50000))]},
    "C25": {"sets": [("kinds", n(16000, 60000))]},
}

# What each check assures (MANIFEST's level_note).
NOTES = {
    "": "Every event recorded from the real code is decided by TLC against the TLA+ specification; assurance extends to the "
        "histories that were generated (seeded random ones and, where listed, ones generated by TLC from the specification). "
        "Trusted: TLC, the driver's projection of blocks into the terms of the specification, go-merkledag and go-ipfs-chunker.",
}
