package main

import (
	"bytes"
	"context"
	"io"

	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	pb "github.com/ipfs/go-unixfs/pb"
)

// Files of up to terabytes: most of their subtrees are the same few blocks, so
// that they need next to no space.  They are constant but for some marks, and
// are read and edited around these and around the edges of subtrees.

func init() { scenarios["huge"] = scenHuge }

const hugeBase = 1 << 20

func hpair(x uint64) []int { return []int{int(x >> 20), int(x & (hugeBase - 1))} }

type hugeMark struct {
	at uint64
	d  []byte
}

type hugeGen struct {
	c     *Case
	s     *Store
	cc    cidCfg
	v     byte
	kind  int
	lsz   int
	fan   []int // per level, from the bottom
	short []bool
	base  []ipld.Node // the subtree without marks, per level
	size  []uint64
}

func (g *hugeGen) leaf(marks *[]hugeMark) ipld.Node {
	b := bytes.Repeat([]byte{g.v}, g.lsz)
	if marks != nil {
		r := g.c.R
		n := 1 + r.Intn(minI(6, g.lsz))
		o := r.Intn(g.lsz - n + 1)
		switch r.Intn(4) {
		case 0:
			o = 0
		case 1:
			o = g.lsz - n
		}
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(10 + r.Intn(240))
		}
		copy(b[o:], d)
		*marks = append(*marks, hugeMark{uint64(o), d})
	}
	return handLeaf(g.s, g.kind, b, g.cc)
}

// node makes a subtree with n marked leaves.
func (g *hugeGen) node(lvl, n int, marks *[]hugeMark) ipld.Node {
	r := g.c.R
	if lvl == 0 {
		if n == 0 {
			return g.base[0]
		}
		return g.leaf(marks)
	}
	k := g.fan[lvl-1]
	kids := make([]ipld.Node, k)
	sizes := make([]uint64, k)
	for i := range kids {
		kids[i], sizes[i] = g.base[lvl-1], g.size[lvl-1]
	}
	if g.short[lvl] && lvl > 1 {
		kids[k-1], sizes[k-1] = g.base[lvl-2], g.size[lvl-2]
	}
	for n > 0 {
		m := 1 + r.Intn(n)
		n -= m
		i := r.Intn(k)
		switch r.Intn(4) {
		case 0:
			i = 0
		case 1:
			i = k - 1
		}
		if sizes[i] != g.size[lvl-1] || kids[i] != g.base[lvl-1] {
			continue
		}
		at := uint64(0)
		for j := 0; j < i; j++ {
			at += sizes[j]
		}
		var ms []hugeMark
		kids[i] = g.node(lvl-1, m, &ms)
		for _, x := range ms {
			*marks = append(*marks, hugeMark{x.at + at, x.d})
		}
	}
	tot := uint64(0)
	for _, x := range sizes {
		tot += x
	}
	p := pbNode(pb.Data_File, nil, sizes, tot)
	p.SetCidBuilder(g.cc.b)
	ts := map[string]uint64{}
	for _, ch := range kids {
		t, ok := ts[ch.Cid().KeyString()]
		if !ok {
			t = treeSizes(g.s, ch)
			ts[ch.Cid().KeyString()] = t
		}
		must(p.AddRawLink("", &ipld.Link{Size: t, Cid: ch.Cid()}))
	}
	g.s.Put(p)
	if g.size[lvl] == 0 {
		g.size[lvl] = tot
	}
	return p
}

// hugeNodes lists the different blocks of a file, those of the children first,
// without the help of the code under test.
func hugeNodes(s *Store, root ipld.Node) []M {
	ids := map[string]int{}
	out := []M{}
	var walk func(nd ipld.Node) int
	walk = func(nd ipld.Node) int {
		if id, ok := ids[nd.Cid().KeyString()]; ok {
			return id
		}
		m := M{"k": "bad", "len": 0, "fs": []int{0, 0}, "own": len(nd.RawData()), "runs": []M{}}
		p, ok := nd.(*dag.ProtoNode)
		if !ok {
			m["k"], m["len"] = "raw", len(nd.RawData())
		} else if d, err := ft.FromBytes(p.Data()); err == nil {
			m["fs"] = hpair(d.GetFilesize())
			m["len"] = len(d.GetData())
			switch {
			case len(p.Links()) == 0 && len(d.Blocksizes) == 0:
				m["k"] = "leaf"
			case len(p.Links()) == len(d.Blocksizes):
				m["k"] = "node"
				runs := []M{}
				for i, l := range p.Links() {
					id, ok := ids[l.Cid.KeyString()]
					if !ok {
						ch, ok := s.load(l.Cid)
						if !ok {
							m["k"] = "bad"
							break
						}
						id = walk(ch)
					}
					if n := len(runs); n > 0 && i > 0 && runs[n-1]["c"] == id && d.Blocksizes[i] == d.Blocksizes[i-1] && l.Size == p.Links()[i-1].Size {
						runs[n-1]["n"] = runs[n-1]["n"].(int) + 1
						continue
					}
					runs = append(runs, M{"c": id, "n": 1, "bs": hpair(d.Blocksizes[i]), "ts": hpair(l.Size)})
				}
				m["runs"] = runs
			}
		}
		out = append(out, m)
		ids[nd.Cid().KeyString()] = len(out)
		return len(out)
	}
	walk(root)
	return out
}

type huge struct {
	c    *Case
	s    *Store
	ctx  context.Context
	hot  []uint64 // places of interest
	unit []uint64 // sizes of subtrees
}

// near returns a position at, or close to, something.
func (h *huge) near(size uint64) uint64 {
	r := h.c.R
	var p uint64
	switch r.Intn(9) {
	case 8:
		// The same in 31 or 32 bits.
		p = h.hot[r.Intn(len(h.hot))]
		if r.Intn(2) == 0 {
			p = size
		}
		if r.Intn(3) > 0 {
			p = h.hot[len(h.hot)-2]
		}
		d := uint64(1+r.Intn(3)) << uint(31+r.Intn(2))
		if p >= d && (r.Intn(2) == 0 || p+d > size) {
			p -= d
		} else if p+d <= size {
			p += d
		}
		return p
	case 0:
		p = uint64(r.Int63n(int64(size) + 1))
	case 1:
		p = size
	case 2:
		u := h.unit[r.Intn(len(h.unit))]
		p = u * uint64(r.Int63n(int64(size/u)+1))
	case 3:
		p = []uint64{1 << 31, 1 << 32, 1<<31 - 1, 1 << 33, 1 << 40, 0}[r.Intn(6)]
	default:
		p = h.hot[r.Intn(len(h.hot))]
	}
	d := uint64(r.Intn(20))
	if r.Intn(2) == 0 {
		if d > p {
			d = p
		}
		p -= d
	} else {
		p += d
	}
	if p > size+40 {
		p = size
	}
	return p
}

func (h *huge) read(nd ipld.Node, snap, n int) bool {
	r := h.c.R
	var dr uio.DagReader
	var rd io.ReadSeeker
	var err error
	var size uint64
	res := Do(func() {
		if r.Intn(4) == 0 {
			var f files.Node
			if f, err = unixfile.NewUnixfsFile(h.ctx, h.s, nd); err == nil {
				rd = f.(files.File)
				var k int64
				k, err = f.Size()
				size = uint64(k)
			}
			return
		}
		if dr, err = uio.NewDagReader(h.ctx, nd, h.s); err == nil {
			rd, size = dr, dr.Size()
		}
	})
	h.c.Emit("Open", M{"s": snap, "res": res, "err": errName(err), "size": hpair(size)})
	if res != "ok" || err != nil {
		return false
	}
	pos := uint64(0)
	for ; n > 0; n-- {
		switch k := r.Intn(10); {
		case k < 5:
			to := h.near(size)
			wh := r.Intn(3)
			off := int64(to)
			if wh == 1 {
				off -= int64(pos)
			} else if wh == 2 {
				off -= int64(size)
			}
			if r.Intn(20) == 0 {
				off = -int64(pos) - 1 - int64(r.Intn(5))
				wh = r.Intn(2)
			}
			var ret int64
			res = Do(func() { ret, err = rd.Seek(off, wh) })
			neg, a := off < 0, off
			if neg {
				a = -off
			}
			if ret < 0 {
				ret = 0
			}
			h.c.Emit("Seek", M{"wh": wh, "neg": neg, "off": hpair(uint64(a)), "res": res, "err": errName(err), "ret": hpair(uint64(ret))})
			if err == nil {
				pos = uint64(ret)
			}
		case k < 9 || pos+3000 < size:
			b := make([]byte, r.Intn(40))
			full := dr != nil && r.Intn(2) == 0
			var m int
			res = Do(func() {
				if full {
					m, err = dr.CtxReadFull(h.ctx, b)
				} else {
					m, err = rd.Read(b)
				}
			})
			pos += uint64(m)
			h.c.Emit("Read", M{"n": len(b), "cnt": m, "got": dec(b[:minI(m, len(b))], 1), "full": full, "res": res, "err": errName(err)})
		default:
			var w bytes.Buffer
			var m int64
			res = Do(func() {
				if dr != nil {
					m, err = dr.WriteTo(&w)
				} else {
					m, err = io.Copy(struct{ io.Writer }{&w}, struct{ io.Reader }{rd})
				}
			})
			pos += uint64(m)
			h.c.Emit("Rest", M{"cnt": int(m), "got": dec(w.Bytes(), 1), "res": res, "err": errName(err)})
		}
		if res != "ok" {
			h.c.hung = res == "hang"
			return false
		}
	}
	if dr != nil {
		dr.Close()
	}
	return true
}

func (h *huge) edit(nd ipld.Node, snap *int) ipld.Node {
	r := h.c.R
	var dm *mod.DagModifier
	var err error
	res := Do(func() {
		dm, err = mod.NewDagModifier(h.ctx, nd, h.s, chunker.SizeSplitterGen(int64([]int{4, 50, 512}[r.Intn(3)])))
	})
	h.c.Emit("Modify", M{"s": *snap, "res": res, "err": errName(err)})
	if res != "ok" || err != nil {
		return nil
	}
	dm.RawLeaves = r.Intn(2) == 0
	size, _ := dm.Size()
	var off uint64
	for n := 1 + r.Intn(5); n > 0; n-- {
		at := h.near(uint64(size))
		alike := r.Intn(5) == 0
		if alike {
			// The same in 32 bits as the place before, or as the end.
			at = h.hot[len(h.hot)-2]
			if r.Intn(3) == 0 {
				at = uint64(size)
			}
			d := uint64(1+r.Intn(3)) << 32
			if at >= d && (r.Intn(2) == 0 || at+d > uint64(size)) {
				at -= d
			} else if at+d <= uint64(size) {
				at += d
			} else {
				alike = false
			}
		}
		d := make([]byte, 1+r.Intn(30))
		for i := range d {
			d[i] = byte(10 + r.Intn(240))
		}
		m := M{"off": hpair(at), "d": dec(d, 1), "n": 0, "wh": 0, "neg": false, "ret": hpair(0), "got": []int{}}
		var op string
		k := 0
		var ret int64
		op = []string{"WriteAt", "WriteAt", "WriteAt", "Write", "Write", "Truncate", "Seek", "Seek", "Read", "Sync"}[r.Intn(10)]
		if op == "Write" && off > uint64(size)+100 {
			op = "WriteAt" // or it would fill up terabytes
		}
		switch op {
		case "WriteAt":
			res = Do(func() { k, err = dm.WriteAt(d, int64(at)) })
			m["n"] = k
			off = at + uint64(len(d))
		case "Write":
			res = Do(func() { k, err = dm.Write(d) })
			m["n"] = k
			off += uint64(len(d))
		case "Truncate":
			if !alike && r.Intn(3) > 0 && at+100 < uint64(size) {
				// Only the last part, mostly.
				at = uint64(size) - uint64(r.Intn(100))
				m["off"] = hpair(at)
			}
			res = Do(func() { err = dm.Truncate(int64(at)) })
		case "Seek":
			wh := []int{0, 0, 2}[r.Intn(3)]
			to := int64(at)
			if wh == 2 {
				to -= size
			}
			res = Do(func() { ret, err = dm.Seek(to, wh) })
			m["wh"], m["neg"] = wh, to < 0
			if to < 0 {
				to = -to
			}
			m["off"], m["ret"] = hpair(uint64(to)), hpair(uint64(ret))
			off = at
		case "Read":
			b := make([]byte, r.Intn(40))
			res = Do(func() { k, err = dm.Read(b) })
			m["n"], m["got"] = len(b), dec(b[:minI(k, len(b))], 1)
			off += uint64(k)
		case "Sync":
			res = Do(func() { err = dm.Sync() })
		}
		h.hot = append(h.hot, at, at+uint64(len(d)))
		m["op"], m["res"], m["err"] = op, res, errName(err)
		m["size"] = hpair(0)
		if res == "ok" {
			var e2 error
			if size, e2 = dm.Size(); e2 == nil && size >= 0 {
				m["size"] = hpair(uint64(size))
			}
		}
		h.c.Emit("Op", m)
		if res != "ok" || err != nil && err != io.EOF {
			h.c.hung = res == "hang"
			return nil
		}
	}
	var x ipld.Node
	res = Do(func() { x, err = dm.GetNode() })
	m := M{"res": res, "err": errName(err), "nodes": []M{}}
	var st ipld.Node
	if res == "ok" && err == nil {
		var ok bool
		if st, ok = h.s.load(x.Cid()); ok {
			m["nodes"] = hugeNodes(h.s, st)
		}
	}
	h.c.Emit("Node", m)
	*snap++
	return st
}

func scenHuge(c *Case) {
	r := c.R
	s := NewStore()
	ctx, cancel := context.WithCancel(bgctx)
	defer cancel()
	g := &hugeGen{c: c, s: s, cc: cidCfgs[r.Intn(len(cidCfgs))], kind: r.Intn(3)}
	g.v = []byte{0, 7}[r.Intn(2)]
	g.lsz = []int{1, 3, 64, 1000, 4096, 1 << 16, 1 << 18}[r.Intn(7)]
	for tot := uint64(g.lsz); ; {
		k := []int{2, 3, 11, 60, 174}[r.Intn(5)]
		if tot*uint64(k) > 1<<41 || len(g.fan) > 6 || (len(g.fan) > 1 && r.Intn(5) == 0) {
			break
		}
		tot *= uint64(k)
		g.fan = append(g.fan, k)
	}
	n := len(g.fan)
	g.base, g.size, g.short = make([]ipld.Node, n+1), make([]uint64, n+1), make([]bool, n+1)
	g.size[0] = uint64(g.lsz)
	g.base[0] = g.leaf(nil)
	for l := 1; l <= n; l++ {
		g.base[l] = g.node(l, 0, nil)
	}
	g.short[n] = r.Intn(3) == 0
	var marks []hugeMark
	root := g.node(n, 1+r.Intn(6), &marks)
	sizeOf, err := ft.FSNodeFromBytes(root.(*dag.ProtoNode).Data())
	must(err)
	size := uint64(0)
	for i := 0; i < sizeOf.NumChildren(); i++ {
		size += sizeOf.BlockSize(i)
	}
	h := &huge{c: c, s: s, ctx: ctx, hot: []uint64{0, size}, unit: g.size}
	ms := []M{}
	for _, m := range marks {
		ms = append(ms, M{"a": hpair(m.at), "b": hpair(m.at + uint64(len(m.d))), "d": dec(m.d, 1), "c": 0})
		h.hot = append(h.hot, m.at, m.at+uint64(len(m.d)))
	}
	c.Emit("Huge", M{"size": hpair(size), "v": int(g.v), "marks": ms, "nodes": hugeNodes(s, root)})
	c.kind = kindN(n) + kindN(g.lsz%4000) + kindN(len(marks))
	snap := 1
	if !h.read(root, snap, 2+r.Intn(8)) {
		return
	}
	var nd ipld.Node = root
	for k := r.Intn(4); k > 0; k-- {
		if nd = h.edit(nd, &snap); nd == nil {
			return
		}
		if !h.read(nd, snap, 2+r.Intn(6)) {
			return
		}
	}
}
