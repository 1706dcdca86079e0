package main

import (
	"bytes"
	"math/rand"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	pb "github.com/ipfs/go-unixfs/pb"
)

func init() {
	scenarios["verify"] = scenVerify
}

// trick makes trickle DAGs by their definition, without the builder, with a
// deviation in a few places.
type trick struct {
	r           *rand.Rand
	s           *Store
	direct, rep int
	raw         bool
	cc          cidCfg
	budget      int
	spoil       map[int]bool
	n           int
	tok         byte
}

func (t *trick) cfg(spoilt bool) cidCfg {
	if spoilt {
		return cidCfgs[t.r.Intn(len(cidCfgs))]
	}
	return t.cc
}

func (t *trick) data() []byte {
	t.tok++
	b := make([]byte, 1+t.r.Intn(3))
	for i := range b {
		b[i] = t.tok
	}
	return b
}

// encode puts a node of any kind together.
func (t *trick) encode(typ pb.Data_DataType, data []byte, cs []ipld.Node, cc cidCfg) ipld.Node {
	var bs []uint64
	for range cs {
		bs = append(bs, uint64(t.r.Intn(5)))
	}
	p := pbNode(typ, data, bs, 0)
	p.SetCidBuilder(cc.b)
	for _, c := range cs {
		must(p.AddRawLink("", &ipld.Link{Size: treeSizes(t.s, c), Cid: c.Cid()}))
	}
	t.s.Put(p)
	return p
}

func (t *trick) leaf(spoilt bool) ipld.Node {
	r := t.r
	kind := 1
	if t.raw {
		kind = 0
	}
	if !spoilt {
		return handLeaf(t.s, kind, t.data(), t.cc)
	}
	switch r.Intn(7) {
	case 0:
		return handLeaf(t.s, 1-kind, t.data(), t.cc)
	case 1:
		return handLeaf(t.s, 2, t.data(), t.cc)
	case 2:
		return handLeaf(t.s, kind, t.data(), t.cfg(true))
	case 3:
		return t.encode(pb.Data_Raw, t.data(), []ipld.Node{handLeaf(t.s, kind, t.data(), t.cc)}, t.cc)
	case 4:
		return t.encode(pb.Data_DataType(r.Intn(7)), t.data(), nil, t.cc)
	case 5:
		return handLeaf(t.s, kind, nil, t.cc)
	}
	return t.branch(1)
}

func (t *trick) branch(depth int) ipld.Node {
	r := t.r
	spoilt := t.spoil[t.n]
	t.n++
	how := -1
	if spoilt {
		how = r.Intn(11)
	}
	var cs []ipld.Node
	max := t.direct + r.Intn(3*t.rep+2)
	if r.Intn(3) == 0 {
		max = r.Intn(t.direct + 1)
	}
	if depth > 0 && max > t.direct+(depth-1)*t.rep {
		max = t.direct + (depth-1)*t.rep
		if how == 0 {
			max++ // one more than there is room for
		}
	}
	for i := 0; i < max && t.budget > 0; i++ {
		t.budget--
		if i < t.direct {
			t.n++
			cs = append(cs, t.leaf(t.spoil[t.n-1]))
			continue
		}
		d := (i-t.direct)/t.rep + 1
		if how == 1 && r.Intn(2) == 0 {
			d += 1 + r.Intn(2)
		}
		cs = append(cs, t.branch(d))
	}
	var data []byte
	typ := pb.Data_File
	cc := t.cc
	switch how {
	case 2:
		data = t.data()
	case 3:
		typ = pb.Data_DataType(r.Intn(7))
	case 4:
		cc = t.cfg(true)
	case 5:
		return handLeaf(t.s, r.Intn(3), t.data(), cc)
	case 6:
		if k := len(cs); k > 0 {
			i := r.Intn(k)
			cs = append(cs[:i:i], cs[i+1:]...)
		}
	case 7:
		if k := len(cs); k > 0 {
			i, j := r.Intn(k), r.Intn(k)
			cs[i], cs[j] = cs[j], cs[i]
		}
	case 8:
		// Something that is no unixfs node.
		p := dag.NodeWithData([]byte("\x07garbage\xff"))
		p.SetCidBuilder(cc.b)
		t.s.Put(p)
		return p
	case 9:
		if k := len(cs); k > 0 {
			cs = append(cs, cs[r.Intn(k)])
		}
	case 10:
		// A leaf in front of the others.
		cs = append([]ipld.Node{t.leaf(false)}, cs...)
	}
	return t.encode(typ, data, cs, cc)
}

// verifyTree is what there is, for the specification.
func verifyTree(s *Store, nd ipld.Node) M {
	p := nd.Cid().Prefix()
	m := M{"k": "raw", "t": "none", "dl": len(nd.RawData()), "v": int(p.Version), "mh": int(p.MhType), "mhl": p.MhLength, "c": []M{}}
	n, ok := nd.(*dag.ProtoNode)
	if !ok {
		return m
	}
	m["k"] = "pb"
	var d pb.Data
	if proto.Unmarshal(n.Data(), &d) != nil {
		return M{"k": "bad"}
	}
	m["t"], m["dl"] = d.GetType().String(), len(d.GetData())
	cs := []M{}
	for _, l := range n.Links() {
		ch, ok := s.load(l.Cid)
		if !ok {
			cs = append(cs, M{"k": "bad"})
			continue
		}
		cs = append(cs, verifyTree(s, ch))
	}
	m["c"] = cs
	return m
}

func scenVerify(c *Case) {
	r := c.R
	s := NewStore()
	t := &trick{r: r, s: s, direct: 1 + r.Intn(4), rep: []int{1, 2, 3, 4, 4}[r.Intn(5)], raw: r.Intn(2) == 0, cc: cidCfgs[r.Intn(len(cidCfgs))], budget: 3 + r.Intn(40), spoil: map[int]bool{}}
	var root ipld.Node
	if r.Intn(4) == 0 {
		// Made by the builder, and appended to.
		t.rep = 4
		root = nil
		for i := 1 + r.Intn(3); i > 0; i-- {
			b := make([]byte, r.Intn(40))
			r.Read(b)
			p := &h.DagBuilderParams{Maxlinks: t.direct, RawLeaves: t.raw, CidBuilder: t.cc.b, Dagserv: s}
			db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(b), 1))
			must(err)
			var nd ipld.Node
			if root == nil {
				nd, err = trickle.Layout(db)
			} else {
				nd, err = trickle.Append(bgctx, root, db)
			}
			must(err)
			s.Put(nd)
			root = nd
		}
	} else {
		for k := r.Intn(3); k > 0; k-- {
			t.spoil[r.Intn(1+r.Intn(20))] = true
		}
		root = t.branch(-1)
	}
	if r.Intn(15) == 0 {
		// A block that is gone.
		var all []ipld.Node
		var walk func(n ipld.Node)
		walk = func(n ipld.Node) {
			for _, l := range n.Links() {
				if ch, ok := s.load(l.Cid); ok {
					all = append(all, ch)
					walk(ch)
				}
			}
		}
		walk(root)
		if len(all) > 0 {
			s.Remove(bgctx, all[r.Intn(len(all))].Cid())
		}
	}
	tree := verifyTree(s, root)
	for i := 0; i < 3; i++ {
		p := trickle.VerifyParams{Getter: s, Direct: t.direct, LayerRepeat: t.rep, RawLeaves: t.raw}
		if i > 0 {
			switch r.Intn(6) {
			case 0:
				p.Direct = maxI(0, p.Direct+r.Intn(3)-1)
			case 1:
				p.LayerRepeat = maxI(1, p.LayerRepeat+r.Intn(3)-1)
			case 2:
				p.RawLeaves = !p.RawLeaves
			}
		}
		if r.Intn(2) == 0 {
			x := t.cc
			if i > 0 && r.Intn(3) == 0 {
				x = cidCfgs[r.Intn(len(cidCfgs))]
			}
			pr := cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: uint64(x.mh), MhLength: 32}
			pr.Version = uint64(x.ver)
			if nd, ok := root.(*dag.ProtoNode); ok && r.Intn(3) == 0 {
				pr.MhLength = nd.Cid().Prefix().MhLength
			}
			switch r.Intn(4) {
			case 0, 1:
				pr.MhLength = -1
			case 2:
				pr.Codec = uint64(r.Intn(100))
			}
			p.Prefix = &pr
		}
		f0 := s.nFaults()
		if i > 0 && r.Intn(5) == 0 {
			s.failNth(1+r.Intn(8), 0)
		}
		root2, ok := s.load(root.Cid())
		if !ok {
			c.Emit("Broken", M{"why": "load"})
			return
		}
		var err error
		var keep cid.Prefix
		if p.Prefix != nil {
			keep = *p.Prefix
		}
		adds := s.adds
		res := Do(func() { err = trickle.VerifyTrickleDagStructure(root2, p) })
		s.heal()
		ev := M{"tree": tree, "direct": p.Direct, "rep": p.LayerRepeat, "raw": p.RawLeaves, "pre": M{"any": true}, "err": errName(err), "res": res,
			"fault": s.nFaults() > f0, "adds": s.adds - adds, "kept": p.Prefix == nil || keep == *p.Prefix}
		if p.Prefix != nil {
			ev["pre"] = M{"any": false, "v": int(keep.Version), "mh": int(keep.MhType), "mhl": keep.MhLength}
		}
		c.kind = kindN(t.n) + errName(err)
		c.Emit("Verify", ev)
		if res == "hang" {
			c.hung = true
			return
		}
	}
}
