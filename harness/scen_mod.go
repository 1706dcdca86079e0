package main

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"math/rand"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
)

func init() {
	scenarios["modifier"] = func(c *Case) { scenModifier(c, false) }
	scenarios["modfault"] = func(c *Case) { scenModifier(c, true) }
}

type modOp struct {
	m   int
	op  string
	k   int   // number of units
	off int64 // in units
	wh  int
}

func parseModOp(raw json.RawMessage) modOp {
	var a []interface{}
	must(json.Unmarshal(raw, &a))
	i := func(k int) int { return int(a[k].(float64)) }
	m := 0
	if x, ok := a[0].(float64); ok { // which modifier
		m, a = int(x)-1, a[1:]
	}
	o := modOp{op: a[0].(string), m: m}
	switch o.op {
	case "Write", "Read", "CtxReadFull":
		o.k = i(1)
	case "WriteAt":
		o.k, o.off = i(1), int64(i(2))
	case "Seek":
		o.wh, o.off = i(1), int64(i(2))
	case "Truncate":
		o.off = int64(i(1))
	}
	return o
}

type snapshot struct {
	nd ipld.Node
	id int
	dr uio.DagReader
}

// leavesOf lists (offset, length, identity) of the leaves of a stored file.
func leavesOf(s *Store, n ipld.Node, u int) [][]int {
	var out [][]int
	off := 0
	var walk func(n ipld.Node)
	walk = func(n ipld.Node) {
		if len(n.Links()) == 0 {
			var b []byte
			fileTree(s, n, &b)
			out = append(out, []int{clampI(int64(off)), len(b), s.ID(n.Cid())})
			off += len(b)
			return
		}
		for _, l := range n.Links() {
			if ch, ok := s.load(l.Cid); ok {
				walk(ch)
			}
		}
	}
	walk(n)
	if out == nil {
		out = [][]int{}
	}
	return out
}

func mkModBase(r *rand.Rand, s *Store, u, csize int) *file {
	if u == 1 {
		return mkFile(r, s, []int{12, 40, 90}[r.Intn(3)])
	}
	g := &tokGen{next: r.Intn(250)}
	data := enc(g.take(r.Intn(8)), u)
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	f := &file{data: data, ml: 2 + r.Intn(5), cc: cc, raw: r.Intn(2) == 0, csize: csize, kind: "units"}
	f.root = fullTree(s, r.Intn(3), f.ml, csize, data, cc)
	return f
}

func scenModifier(c *Case, faults bool) {
	r := c.R
	s := NewStore()
	u, csize := 1, 1+r.Intn(6)
	switch {
	case genOps != nil:
	case r.Intn(60) == 0:
		u, csize = 300000, 262144
	case r.Intn(8) == 0 && !faults:
		u = 700 + r.Intn(4000)
		csize = 300 + r.Intn(2*u)
	}
	var f *file
	if genOps != nil {
		// The length of the file comes with the history.
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		var tag string
		must(json.Unmarshal(t[0], &tag))
		g := &tokGen{next: r.Intn(250)}
		f = &file{cc: cidCfgs[r.Intn(len(cidCfgs))], ml: 2, kind: "gen"}
		if tag == "T" { // or its tree
			k := (c.N + genVariant) % 4
			f.root, _ = genTree(s, t[1], g, &f.data, k, r)
			f.cc = cidCfgs[k]
		} else {
			f.data = enc(g.take(genInt(t[1])), 1)
			f.root = fullTree(s, r.Intn(3), 2, 1+(c.N+genVariant)%3, f.data, f.cc)
		}
		csize = 1 + r.Intn(3)
	} else {
		f = mkModBase(r, s, u, csize)
	}
	for {
		// The modifier works on files, not on what wraps them.
		if pn, ok := f.root.(*dag.ProtoNode); ok {
			if b := pn.Links(); len(b) == 1 && len(pn.Data()) < 12 && isMeta(pn) {
				ch, _ := s.load(b[0].Cid)
				f.root = ch
				continue
			}
		}
		break
	}
	old := h.DefaultLinksPerBlock
	h.DefaultLinksPerBlock = []int{2, 3, 4, 174}[r.Intn(4)]
	if f.ml > 1 && r.Intn(2) == 0 {
		h.DefaultLinksPerBlock = f.ml
	}
	defer func() { h.DefaultLinksPerBlock = old }()
	ml := h.DefaultLinksPerBlock
	g := &tokGen{next: 120 + r.Intn(100)}

	nmods := 1 + r.Intn(2)
	if u > 10000 || genOps != nil {
		nmods = 1
	}
	if genOps != nil {
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		if len(t) > 2 {
			nmods = genInt(t[2])
		}
	}
	base := f.root
	// Sometimes the node comes from the store.
	if r.Intn(2) == 0 {
		if b, ok := s.load(base.Cid()); ok {
			base = b
		}
	}
	var bt []byte
	btree := fileTree(s, base, &bt)
	c.kind = f.kind + kindN(len(f.data)/u) + kindN(ml)
	bp := base.Cid().Prefix()
	c.Emit("Base", M{"data": dec(bt, u), "U": u, "root": s.ID(base.Cid()), "ver": int(bp.Version), "mh": int(bp.MhType),
		"tree": btree, "leaves": leavesOf(s, base, u), "nmods": nmods, "kind": f.kind, "ml": ml})
	var mods []*mod.DagModifier
	for i := 0; i < nmods; i++ {
		var dm *mod.DagModifier
		var err error
		out := Do(func() {
			dm, err = mod.NewDagModifier(bgctx, base, s, chunker.SizeSplitterGen(int64(csize)))
		})
		if err != nil {
			out = "err"
		}
		ev := M{"m": i + 1, "res": out, "over": []int{}}
		if out == "ok" {
			ev["rawdef"] = dm.RawLeaves
			if r.Intn(2) == 0 {
				dm.RawLeaves = f.raw
			}
			if r.Intn(6) == 0 {
				dm.RawLeaves = !dm.RawLeaves
			}
			ev["raw"] = dm.RawLeaves
			if genOps == nil && r.Intn(8) == 0 {
				cc := cidCfgs[r.Intn(len(cidCfgs))]
				dm.Prefix = cid.Prefix{Version: uint64(cc.ver), Codec: cid.DagProtobuf, MhType: uint64(cc.mh), MhLength: -1}
				ev["over"] = []int{cc.ver, cc.mh}
			}
		}
		c.Emit("New", ev)
		if out != "ok" {
			return
		}
		mods = append(mods, dm)
	}
	// Everything obtained so far: the base node and the nodes returned.
	snaps := []*snapshot{{nd: base, id: s.ID(base.Cid())}}
	openOn := func(i int) {
		sn := snaps[i]
		if sn.dr != nil || u > 10000 {
			return
		}
		dr, err := uio.NewDagReader(bgctx, sn.nd, calm{s})
		if err == nil {
			sn.dr = dr
			c.Emit("SnapOpen", M{"s": i + 1, "size": clampU(dr.Size()) / u})
		}
	}
	checkSnap := func(i int) {
		sn := snaps[i]
		var b []byte
		t := fileTree(s, sn.nd, &b)
		id := 0
		// The identity of the node as it is now, whatever it remembers.
		switch nd := sn.nd.(type) {
		case *dag.ProtoNode:
			cp := dag.NodeWithData(append([]byte(nil), nd.Data()...))
			cp.SetCidBuilder(nd.CidBuilder())
			for _, l := range nd.Links() {
				must(cp.AddRawLink(l.Name, l))
			}
			id = s.ID(cp.Cid())
			if !nd.Cid().Equals(cp.Cid()) {
				id = -1
			}
		default:
			k, err := nd.Cid().Prefix().Sum(nd.RawData())
			must(err)
			id = s.ID(k)
		}
		c.Emit("Snap", M{"s": i + 1, "id": id, "got": dec(b, u), "wf": t["k"] != "bad"})
	}
	readSnap := func(i int) {
		sn := snaps[i]
		if sn.dr == nil {
			return
		}
		if r.Intn(3) == 0 {
			p := r.Intn(len(f.data)/u + 3)
			ret, err := sn.dr.Seek(int64(p*u), io.SeekStart)
			c.Emit("SnapSeek", M{"s": i + 1, "off": p, "ret": int(ret) / u, "err": errName(err)})
		}
		b := make([]byte, (1+r.Intn(8))*u)
		var k int
		var err error
		res := Do(func() { k, err = dr0(sn.dr, b) })
		c.Emit("SnapRead", M{"s": i + 1, "n": len(b) / u, "got": dec(b[:k], u), "err": errName(err), "res": res})
		c.hung = res == "hang"
	}
	if r.Intn(2) == 0 {
		openOn(0)
	}
	n := 3 + r.Intn(10)
	if u > 10000 {
		n = 3 + r.Intn(4)
	}
	gen := genOps != nil
	var hist []json.RawMessage
	if gen {
		hist = genOps[c.N][1:]
		if faults {
			hist = append(append([]json.RawMessage{}, hist...), json.RawMessage(`["Sync"]`))
		}
		n = len(hist) + 1 // the last one: get the node
	}
	// What the driver believes, only to choose arguments.
	sizes := make([]int64, nmods)
	offs := make([]int64, nmods)
	for i := range sizes {
		sizes[i] = int64(len(bt) / u)
	}
	m := 0
	var retry *modOp
	for i := 0; i < n; i++ {
		if retry == nil {
			m = r.Intn(nmods)
		}
		dm := mods[m]
		var o modOp
		if retry != nil {
			o = *retry
		} else if faults && i == n-1 {
			o.op = "GetNode"
		} else if gen {
			o.op = "GetNode"
			if i < n-1 {
				o = parseModOp(hist[i])
				m = o.m
				dm = mods[m]
			}
		} else {
			o.op = []string{"Write", "Write", "WriteAt", "WriteAt", "Read", "CtxReadFull", "Seek", "Seek", "Truncate", "Sync", "GetNode", "GetNode"}[r.Intn(12)]
			if faults && u > 1 && (o.op == "Read" || o.op == "CtxReadFull") {
				// A read that fails may deliver a part of a unit.
				o.op = "Sync"
			}
			o.k = 1 + r.Intn(7)
			if u > 10000 {
				o.k = 1 + r.Intn(9)
			}
			near := func() int64 {
				switch r.Intn(6) {
				case 0:
					return sizes[m] + int64(r.Intn(5))
				case 1:
					return offs[m] + int64(r.Intn(5)-2)
				case 2:
					return sizes[m]
				}
				return int64(r.Intn(int(sizes[m]) + 2))
			}
			switch o.op {
			case "Write", "Read", "CtxReadFull":
				if r.Intn(12) == 0 {
					o.k = 0
				}
				if r.Intn(6) == 0 {
					o.k = r.Intn(30)
				}
			case "WriteAt":
				o.off = near()
				if r.Intn(40) == 0 {
					o.off = -1 - int64(r.Intn(3))
				}
				if o.off < 0 && r.Intn(4) > 0 {
					o.off = 0
				}
				if r.Intn(12) == 0 {
					o.k = 0
				}
				if r.Intn(6) == 0 {
					o.k = r.Intn(30)
				}
			case "Seek":
				o.wh = r.Intn(3)
				o.off = near() - []int64{0, offs[m], sizes[m]}[o.wh]
				if r.Intn(15) == 0 {
					o.off = -int64(r.Intn(20))
				}
				if r.Intn(30) == 0 {
					o.wh = 3 + r.Intn(3)
				}
			case "Truncate":
				o.off = near()
				if o.off < 0 && r.Intn(4) > 0 {
					o.off = 0
				}
				if r.Intn(4) == 0 {
					o.off = int64(r.Intn(int(sizes[m]) + 1))
				}
			}
			if u > 10000 && o.k > 9 {
				o.k = 9
			}
		}
		// An empty write past the end may or may not extend the file.
		if o.k == 0 && ((o.op == "Write" && offs[m] > sizes[m]) || (o.op == "WriteAt" && o.off > sizes[m])) {
			o.k = 1
		}
		ctx := bgctx
		if faults && i < n-1 {
			s.heal()
			x := r.Intn(4)
			if gen {
				x = 3
				if retry == nil && genVariant%2 == 0 {
					s.failNth(0, 1+genVariant/2)
				} else if retry == nil {
					s.failNth(1+genVariant/2, 0)
				}
			}
			switch x {
			case 0:
				s.failNth(0, 1+r.Intn(6))
			case 1:
				s.failNth(1+r.Intn(4), 0)
			case 2:
				if o.op == "CtxReadFull" {
					x, cancel := context.WithCancel(ctx)
					cancel()
					ctx = x
				}
			}
		}
		ev := M{"m": m + 1, "op": o.op}
		adds0, faults0, af0 := s.adds, s.nFaults(), s.addFails
		res, err := "", error(nil)
		switch o.op {
		case "Write", "WriteAt":
			d := g.take(o.k)
			if r.Intn(8) == 0 {
				d = make([]int, o.k) // zeros
			}
			b := enc(d, u)
			var k int
			res = Do(func() {
				if o.op == "Write" {
					k, err = dm.Write(b)
				} else {
					k, err = dm.WriteAt(b, o.off*int64(u))
				}
			})
			if !bytes.Equal(b, enc(d, u)) {
				res = "clobbered"
			}
			// Callers may reuse their buffer.
			for j := range b {
				b[j] = 0xee
			}
			ev["d"], ev["n"], ev["off"], ev["rem"] = d, k/u, o.off, k%u
		case "Read", "CtxReadFull":
			b := make([]byte, o.k*u)
			var k int
			res = Do(func() {
				if o.op == "Read" {
					k, err = dm.Read(b)
				} else {
					k, err = dm.CtxReadFull(ctx, b)
				}
			})
			if k < 0 || k > len(b) {
				ev["got"], ev["n"] = []int{-9}, o.k
			} else {
				ev["got"], ev["n"] = dec(b[:k], u), o.k
			}
		case "Seek":
			var k int64
			res = Do(func() { k, err = dm.Seek(o.off*int64(u), o.wh) })
			ev["off"], ev["wh"], ev["ret"], ev["rem"] = o.off, o.wh, int(k)/u, int(k)%u
		case "Truncate":
			res = Do(func() { err = dm.Truncate(o.off * int64(u)) })
			ev["off"] = o.off
		case "Sync":
			res = Do(func() { err = dm.Sync() })
		case "GetNode":
			var nd ipld.Node
			res = Do(func() { nd, err = dm.GetNode() })
			ev["got"], ev["tree"], ev["root"], ev["leaves"], ev["stored"], ev["rsize"] = []int{}, M{}, 0, [][]int{}, false, 0
			if res == "ok" && err == nil && nd != nil {
				var b []byte
				ev["tree"] = fileTree(s, nd, &b)
				ev["got"] = dec(b, u)
				ev["root"] = s.ID(nd.Cid())
				ev["leaves"] = leavesOf(s, nd, u)
				ev["stored"] = allStored(s, nd.Cid())
				s.Handed(nd.Cid())
				ev["rsize"] = -1
				if sz, e := readerSize(s, nd); e == nil {
					ev["rsize"] = sz / u
				}
				snaps = append(snaps, &snapshot{nd: nd, id: s.ID(nd.Cid())})
			}
		}
		ev["res"], ev["err"] = res, errName(err)
		ev["adds"] = s.adds - adds0
		// A block that could not be fetched ahead may be missed much later.
		ev["fault"] = s.nFaults() > faults0 || (s.nFaults() > 0 && (o.op == "Read" || o.op == "CtxReadFull" || o.op == "Seek"))
		ev["addfault"] = s.addFails > af0
		ev["cancelled"] = ctx != bgctx
		s.heal()
		// What can be seen of the state after the operation.
		var sz int64
		var serr error
		ev["has"] = false
		if o2 := Do(func() { sz, serr = dm.Size(); ev["has"] = dm.HasChanges() }); o2 != "ok" || serr != nil {
			sz = -1
		}
		ev["size"], ev["szrem"] = clampI(sz)/u, clampI(sz)%u
		if sz < 0 {
			ev["size"] = -1
		}
		c.Emit("Op", ev)
		if res == "hang" {
			c.hung = true
			return
		}
		if sz >= 0 {
			sizes[m] = sz / int64(u)
		}
		offs[m] = trackOff(o, offs[m], sizes[m], ev, u, err)
		if o.op == "GetNode" && err == nil && (r.Intn(2) == 0 || nmods > 1 && gen) {
			openOn(len(snaps) - 1)
		}
		if res != "ok" && faults {
			break
		}
		// What failed is tried again, or not.
		again := retry != nil
		retry = nil
		if faults && ev["fault"].(bool) && err != nil && !(gen && again) && (gen || r.Intn(2) == 0) {
			x := o
			retry = &x
			if gen {
				i--
			}
		}
		if !gen || i == n-1 {
			if r.Intn(3) == 0 {
				checkSnap(r.Intn(len(snaps)))
			}
			if r.Intn(3) == 0 {
				readSnap(r.Intn(len(snaps)))
			}
			if c.hung {
				return
			}
		}
	}
	if !gen || nmods > 1 || c.N%3 == 0 {
		for i := range snaps {
			checkSnap(i)
			readSnap(i)
		}
	}
}

func isMeta(n *dag.ProtoNode) bool {
	d := n.Data()
	return len(d) > 1 && d[0] == 8 && d[1] == 3
}

func dr0(dr uio.DagReader, b []byte) (int, error) { return dr.CtxReadFull(bgctx, b) }

func trackOff(o modOp, off, size int64, ev M, u int, err error) int64 {
	switch o.op {
	case "Write":
		return off + int64(o.k)
	case "WriteAt":
		if err == nil {
			return o.off + int64(o.k)
		}
	case "Read", "CtxReadFull":
		return off + int64(len(ev["got"].([]int)))
	case "Seek":
		if err == nil {
			return int64(ev["ret"].(int))
		}
	}
	return off
}

// allStored tells whether a block and everything below are in the store.
func allStored(s *Store, c cid.Cid) bool {
	raw, ok := s.Raw(c)
	if !ok {
		return false
	}
	for _, k := range kids(c, raw) {
		if !allStored(s, k) {
			return false
		}
	}
	return true
}
