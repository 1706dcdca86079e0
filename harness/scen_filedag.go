package main

import (
	"bytes"
	"context"
	"encoding/json"
	"io"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	unixfile "github.com/ipfs/go-unixfs/file"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	pb "github.com/ipfs/go-unixfs/pb"
)

// Files of any shape, some of whose blocks are missing or aren't a file's.

func init() { scenarios["filedag"] = scenFileDag }

// foundFirst delivers the blocks there are before it says that some are not.
type foundFirst struct{ *Store }

func (s foundFirst) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cs)+1)
	go func() {
		defer close(out)
		set := cid.NewSet()
		var last error
		for _, c := range cs {
			if !set.Visit(c) {
				continue
			}
			n, err := s.Get(ctx, c)
			if err != nil {
				last = err
				continue
			}
			out <- &ipld.NodeOption{Node: n}
		}
		if last != nil {
			out <- &ipld.NodeOption{Err: last}
		}
	}()
	return out
}

func scenFileDag(c *Case) {
	r := c.R
	s := NewStore()
	ff := foundFirst{s}
	g := &tokGen{next: r.Intn(250)}
	desc := []M{}
	var nds []ipld.Node // nil: missing
	var cids []cid.Cid
	var spans []int
	miss := &badDag{r: r, s: s}
	oddity := []int{0, 3, 6, 12}[r.Intn(4)] // how often things are odd
	odd := func(k int) bool { return oddity > 0 && r.Intn(k*12/oddity) == 0 }
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	add := func(n ipld.Node, d M, span int) int {
		d["n"] = span
		desc = append(desc, d)
		nds = append(nds, n)
		if n != nil {
			cids = append(cids, n.Cid())
		} else {
			cids = append(cids, miss.missing())
		}
		spans = append(spans, span)
		return len(nds)
	}
	unfit := func(k string, claim int) int {
		if k == "missing" {
			return add(nil, M{"k": "missing", "d": []int{}, "kids": []int{}, "bs": []int{}}, claim)
		}
		var p pb.Data
		var data []byte
		switch x := r.Intn(6); x {
		case 0:
			data = []byte{0xff, 0xff, byte(r.Intn(256))}
		default:
			t := []pb.Data_DataType{pb.Data_Directory, pb.Data_Symlink, pb.Data_HAMTShard, pb.Data_Metadata, 7 + pb.Data_DataType(r.Intn(3))}[x-1]
			p.Type, p.Data = &t, []byte("x")
			var err error
			data, err = proto.Marshal(&p)
			must(err)
		}
		n := dag.NodeWithData(data)
		n.SetCidBuilder(cc.b)
		s.Put(n)
		return add(n, M{"k": "bad", "d": []int{}, "kids": []int{}, "bs": []int{}}, claim)
	}
	sound := func(d []int) int {
		b := enc(d, 1)
		var n ipld.Node
		if r.Intn(2) == 0 {
			n = dag.NewRawNode(b)
			s.Put(n)
		} else {
			n = handLeaf(s, 1+r.Intn(2), b, cc)
		}
		return add(n, M{"k": "leaf", "d": d, "kids": []int{}, "bs": []int{}}, len(d))
	}
	inner := func(kids, bs []int, span int, inline bool) (ipld.Node, M) {
		var d pb.Data
		t := pb.Data_File
		d.Type = &t
		d.Filesize = proto.Uint64(uint64(span))
		for _, b := range bs {
			d.Blocksizes = append(d.Blocksizes, uint64(b))
		}
		if inline {
			d.Data = []byte("inner") // belongs to no leaf
		}
		b, err := proto.Marshal(&d)
		must(err)
		n := dag.NodeWithData(b)
		n.SetCidBuilder(cc.b)
		for _, k := range kids {
			l := &ipld.Link{Cid: cids[k-1]}
			if nds[k-1] != nil {
				l.Size = treeSizes(s, nds[k-1])
			}
			must(n.AddRawLink("", l))
		}
		s.Put(n)
		return n, M{"k": "inner", "d": []int{}, "kids": kids, "bs": append([]int{}, bs...)}
	}
	leaf := func(top bool) int {
		k := r.Intn(5)
		if r.Intn(8) == 0 {
			k = 0
		}
		d := g.take(k)
		if !top && odd(5) {
			// Missing, or not a part of a file. Its parent may claim it
			// to have a size.
			return unfit([]string{"missing", "bad"}[r.Intn(2)], r.Intn(4))
		}
		return sound(d)
	}
	var tree func(depth int, top bool) int
	tree = func(depth int, top bool) int {
		if depth == 0 || !top && r.Intn(5) == 0 {
			return leaf(top)
		}
		if !top && len(nds) > 0 && r.Intn(12) == 0 {
			return 1 + r.Intn(len(nds)) // once more
		}
		w := 1 + r.Intn(4)
		if r.Intn(10) == 0 {
			w = 8 + r.Intn(18)
		}
		var kids, bs []int
		span := 0
		for ; w > 0; w-- {
			k := tree(depth-1, false)
			kids = append(kids, k)
			bs = append(bs, spans[k-1])
			span += spans[k-1]
		}
		if odd(14) {
			// Seeking isn't possible through this one.
			if r.Intn(2) == 0 {
				bs = bs[:len(bs)-1]
			} else {
				bs = append(bs, r.Intn(9))
			}
		}
		n, d := inner(kids, bs, span, odd(8))
		if !top && odd(10) {
			// The whole part is missing.
			s.mu.Lock()
			delete(s.blocks, n.Cid().KeyString())
			s.mu.Unlock()
			return add(nil, M{"k": "missing", "d": []int{}, "kids": []int{}, "bs": []int{}}, span)
		}
		return add(n, d, span)
	}
	gen := genOps != nil
	top := 0
	if gen {
		// The DAG comes with the history.
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		var ns []struct {
			K    string
			D    []int
			Kids []int
			Bs   []int
			N    int
		}
		must(json.Unmarshal(t[1], &ns))
		for _, x := range ns {
			switch x.K {
			case "leaf":
				top = sound(append([]int{}, x.D...))
			case "inner":
				n, d := inner(x.Kids, x.Bs, x.N, genVariant%2 == 1)
				top = add(n, d, x.N)
			default:
				top = unfit(x.K, x.N)
			}
		}
	} else {
		top = tree(1+r.Intn(4), true)
	}
	if len(desc) > 60 && !gen {
		return
	}
	root := nds[top-1]
	// A missing part may be there as part of something else.
	for i, n := range nds {
		if gen {
			break
		}
		if n == nil {
			if _, ok := s.load(cids[i]); ok {
				return
			}
		} else if _, ok := s.load(cids[i]); !ok {
			return
		}
	}
	c.kind = kindN(len(desc)) + kindN(spans[top-1])
	c.Emit("Dag", M{"nodes": desc, "root": top})
	L := spans[top-1]
	ctx, cancel := context.WithCancel(bgctx)
	defer cancel()

	how := []string{"reader", "reader", "reader", "view", "modifier"}[r.Intn(5)]
	if gen {
		how = "reader"
	}
	var rd io.Reader
	var err error
	res := Do(func() {
		switch how {
		case "reader":
			var dr uio.DagReader
			dr, err = uio.NewDagReader(ctx, root, ff)
			if err == nil {
				rd = dr
			}
		case "view":
			var n files.Node
			n, err = unixfile.NewUnixfsFile(ctx, ff, root)
			if f, ok := n.(files.File); err == nil && ok {
				rd = f
			}
		case "modifier":
			var dm *mod.DagModifier
			dm, err = mod.NewDagModifier(ctx, root, ff, chunker.SizeSplitterGen(4))
			if err == nil {
				rd = dm
			}
		}
	})
	c.Emit("Open", M{"how": how, "res": res, "err": errName(err)})
	if res != "ok" || err != nil || rd == nil {
		return
	}
	steps := 3 + r.Intn(10)
	if gen {
		steps = len(genOps[c.N]) - 1
	}
	for k := 0; k < steps; k++ {
		n := r.Intn(5)
		if r.Intn(4) == 0 {
			n = r.Intn(L + 8)
		}
		x := r.Intn(8)
		off := int64(r.Intn(L + 3))
		if gen {
			var a []interface{}
			must(json.Unmarshal(genOps[c.N][k+1], &a))
			y := int(a[1].(float64))
			n, off, x = y, int64(y), map[string]int{"W": 0, "S": 1, "R": 7}[a[0].(string)]
		}
		ev := M{"op": "Read", "n": n, "got": []int{}, "ret": 0, "pos": -1}
		var err error
		var m int
		b := make([]byte, n)
		switch {
		case x == 0 && how == "reader":
			var w bytes.Buffer
			res = Do(func() { _, err = rd.(io.WriterTo).WriteTo(&w) })
			ev["op"], ev["got"] = "WriteTo", dec(w.Bytes(), 1)
		case x <= 3 && how != "modifier":
			var p int64
			res = Do(func() { p, err = rd.(io.Seeker).Seek(off, io.SeekStart) })
			ev["op"], ev["n"], ev["ret"] = "Seek", int(off), clampI(p)
		default:
			res = Do(func() {
				if f, ok := rd.(uio.DagReader); ok && r.Intn(2) == 0 {
					m, err = f.CtxReadFull(ctx, b)
				} else {
					m, err = rd.Read(b)
				}
			})
			if m >= 0 && m <= n {
				ev["got"] = dec(b[:m], 1)
			} else {
				res = "count"
			}
		}
		if how != "modifier" && res == "ok" {
			if p, e := rd.(io.Seeker).Seek(0, io.SeekCurrent); e == nil {
				ev["pos"] = clampI(p)
			}
		}
		ev["res"], ev["err"] = res, errName(err)
		c.Emit("Do", ev)
		if c.hung = res == "hang"; c.hung {
			return
		}
		if err != nil && err != io.EOF && how == "modifier" {
			return
		}
	}
}
