package main

import (
	"bytes"
	"math/rand"
	"strconv"
	"strings"

	proto "github.com/gogo/protobuf/proto"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	"github.com/ipfs/go-unixfs/mod"
	pb "github.com/ipfs/go-unixfs/pb"
)

// Builders of file DAGs that don't go through the code under test: the blocks
// are encoded here.

func pbNode(typ pb.Data_DataType, data []byte, bs []uint64, fs uint64) *dag.ProtoNode {
	d := &pb.Data{Type: &typ, Data: data, Filesize: proto.Uint64(fs), Blocksizes: bs}
	b, err := proto.Marshal(d)
	must(err)
	return dag.NodeWithData(b)
}

// handLeaf makes a leaf block: raw, or dag-pb of type Raw or File.
func handLeaf(s *Store, kind int, data []byte, cc cidCfg) ipld.Node {
	var nd ipld.Node
	switch kind {
	case 0:
		if cc.b != nil {
			rn, err := dag.NewRawNodeWPrefix(append([]byte{}, data...), cc.b)
			must(err)
			nd = rn
		} else {
			nd = dag.NewRawNode(append([]byte{}, data...))
		}
	case 1:
		p := pbNode(pb.Data_Raw, data, nil, uint64(len(data)))
		p.SetCidBuilder(cc.b)
		nd = p
	default:
		p := pbNode(pb.Data_File, data, nil, uint64(len(data)))
		p.SetCidBuilder(cc.b)
		nd = p
	}
	s.Put(nd)
	return nd
}

func treeSizes(s *Store, n ipld.Node) uint64 {
	sz := uint64(len(n.RawData()))
	for _, l := range n.Links() {
		sz += l.Size
	}
	return sz
}

func handNode(s *Store, cs []ipld.Node, ns []int, cc cidCfg) ipld.Node {
	var bs []uint64
	tot := uint64(0)
	for _, n := range ns {
		bs = append(bs, uint64(n))
		tot += uint64(n)
	}
	p := pbNode(pb.Data_File, nil, bs, tot)
	p.SetCidBuilder(cc.b)
	for _, c := range cs {
		must(p.AddRawLink("", &ipld.Link{Size: treeSizes(s, c), Cid: c.Cid()}))
	}
	s.Put(p)
	return p
}

// handTree builds a random tree for the bytes: uneven, with leaves of any
// kind, possibly empty ones.
func handTree(r *rand.Rand, s *Store, data []byte, depth int, cc cidCfg, empties bool) ipld.Node {
	if depth == 0 || len(data) == 0 || r.Intn(5) == 0 {
		return handLeaf(s, r.Intn(3), data, cc)
	}
	k := 1 + r.Intn(4)
	if r.Intn(6) == 0 {
		k = 10 + r.Intn(6)
	}
	var cs []ipld.Node
	var ns []int
	for i := 0; i < k; i++ {
		n := len(data)
		if i < k-1 {
			n = r.Intn(len(data)*2/(k-i) + 1)
			if n > len(data) {
				n = len(data)
			}
		}
		if n == 0 && !empties {
			continue
		}
		cs = append(cs, handTree(r, s, data[:n], depth-1, cc, empties))
		ns = append(ns, n)
		data = data[n:]
	}
	if len(cs) == 0 {
		return handLeaf(s, r.Intn(3), data, cc)
	}
	return handNode(s, cs, ns, cc)
}

// fullTree builds a tree of the given shape: levels of fan-out k over leaves of
// lsz bytes each.
func fullTree(s *Store, kind, k, lsz int, data []byte, cc cidCfg) ipld.Node {
	var lvl []ipld.Node
	var ns []int
	for len(data) > 0 {
		n := lsz
		if n > len(data) {
			n = len(data)
		}
		lvl = append(lvl, handLeaf(s, kind, data[:n], cc))
		ns = append(ns, n)
		data = data[n:]
	}
	if len(lvl) == 0 {
		return handLeaf(s, kind, nil, cc)
	}
	for len(lvl) > 1 {
		var up []ipld.Node
		var un []int
		for i := 0; i < len(lvl); i += k {
			j := i + k
			if j > len(lvl) {
				j = len(lvl)
			}
			up = append(up, handNode(s, lvl[i:j], ns[i:j], cc))
			t := 0
			for _, x := range ns[i:j] {
				t += x
			}
			un = append(un, t)
		}
		lvl, ns = up, un
	}
	return lvl[0]
}

// wellFormed checks a projected tree without the help of the code under test:
// sizes agree with the content.
func wellFormed(t M) (int, bool) {
	switch t["k"] {
	case "raw":
		return t["dl"].(int), true
	case "leaf":
		return t["dl"].(int), t["fs"] == t["dl"] && len(t["bs"].([]int)) == 0
	case "node":
		cs, bs := t["c"].([]M), t["bs"].([]int)
		if len(cs) != len(bs) || t["dl"].(int) != 0 {
			return 0, false
		}
		sum := 0
		for i, c := range cs {
			n, ok := wellFormed(c)
			if !ok || n != bs[i] {
				return 0, false
			}
			sum += n
		}
		return sum, t["fs"] == sum
	}
	return 0, false
}

func treeDepth(t M) int {
	d := 0
	if cs, ok := t["c"].([]M); ok {
		for _, c := range cs {
			if k := treeDepth(c) + 1; k > d {
				d = k
			}
		}
	}
	return d
}

type file struct {
	root  ipld.Node
	data  []byte
	kind  string
	depth int
	ml    int
	cc    cidCfg
	raw   bool
	lay   string
	csize int
}

// mkFile makes a well-formed file DAG in the store, of one of the kinds the
// library itself produces or of those it must be able to read.
func mkFile(r *rand.Rand, s *Store, max int) *file {
	g := &tokGen{next: r.Intn(250)}
	n := randLen(r, max)
	data := enc(g.take(n), 1)
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	f := &file{data: data, ml: []int{2, 3, 4, 5, 11, 30, 174}[r.Intn(7)], cc: cc, raw: r.Intn(2) == 0, csize: 1 + r.Intn(5)}
	hand := func() {
		f.root = handTree(r, s, data, 1+r.Intn(4), cc, r.Intn(4) == 0)
		f.kind = "hand"
	}
	imp := func(data []byte, lay string) ipld.Node {
		nd, err := build(s, &importCfg{layout: lay, ml: f.ml, raw: f.raw, cc: cc}, chunker.NewSizeSplitter(bytes.NewReader(data), int64(f.csize)))
		if err != nil {
			return nil
		}
		return nd
	}
	k := r.Intn(10)
	switch k {
	case 0, 1:
		f.lay, f.kind = "balanced", "balanced"
		Do(func() { f.root = imp(data, "balanced") })
	case 2, 3:
		f.lay, f.kind = "trickle", "trickle"
		Do(func() { f.root = imp(data, "trickle") })
	case 4:
		f.lay, f.kind = "trickle", "appended"
		cut := r.Intn(len(data) + 1)
		Do(func() {
			b := imp(data[:cut], "trickle")
			if b == nil {
				return
			}
			p := &h.DagBuilderParams{Maxlinks: f.ml, RawLeaves: f.raw, CidBuilder: cc.b, Dagserv: s}
			db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(data[cut:]), int64(1+r.Intn(4))))
			if err != nil {
				return
			}
			nd, err := trickle.Append(bgctx, b, db)
			if err == nil {
				f.root = nd
				s.Put(nd)
			}
		})
	case 5:
		f.kind = "modified"
		f.lay = []string{"balanced", "trickle"}[r.Intn(2)]
		Do(func() {
			b := imp(data, f.lay)
			if b == nil {
				return
			}
			dm, err := mod.NewDagModifier(bgctx, b, s, chunker.DefaultSplitter)
			if err != nil {
				return
			}
			old := h.DefaultLinksPerBlock
			h.DefaultLinksPerBlock = f.ml
			defer func() { h.DefaultLinksPerBlock = old }()
			dm.RawLeaves = f.raw
			if len(data) > 0 && r.Intn(2) == 0 {
				if dm.Truncate(int64(r.Intn(len(data)+1))) != nil {
					return
				}
			} else {
				o := r.Intn(len(data) + 1)
				if _, err := dm.WriteAt(enc(g.take(1+r.Intn(6)), 1), int64(o)); err != nil {
					return
				}
			}
			nd, err := dm.GetNode()
			if err == nil {
				f.root = nd
			}
		})
	case 6:
		f.kind = "full"
		f.root = fullTree(s, r.Intn(3), f.ml, f.csize, data, cc)
	case 7:
		f.kind = "leaf"
		f.root = handLeaf(s, r.Intn(3), data, cc)
	default:
		hand()
	}
	for {
		if f.root == nil {
			hand()
		}
		var content []byte
		t := fileTree(s, f.root, &content)
		if _, ok := wellFormed(t); !ok {
			// Not the business of who asked for a well-formed file.
			f.root = nil
			continue
		}
		f.data = content
		f.depth = treeDepth(t)
		break
	}
	if r.Intn(8) == 0 {
		// Metadata wrapped around the file.
		p := pbNode(pb.Data_Metadata, []byte{0x0a, 1, 'x'}, nil, 0)
		must(p.AddRawLink("", &ipld.Link{Size: treeSizes(s, f.root), Cid: f.root.Cid()}))
		s.Put(p)
		f.root = p
		f.kind += "+meta"
	}
	return f
}

// handShard encodes the canonical HAMT of the given links, by itself.
func handShard(s *Store, ls []*ipld.Link, lg, level int, cc cidCfg) ipld.Node {
	w := 1 << uint(lg)
	groups := make([][]*ipld.Link, w)
	for _, l := range ls {
		d := int(hash64(l.Name) << uint(lg*level) >> uint(64-lg))
		groups[d] = append(groups[d], l)
	}
	bf := make([]byte, w/8)
	pad := len(hexUpper(w - 1))
	p := dag.NodeWithData(nil)
	for d, g := range groups {
		if len(g) == 0 {
			continue
		}
		bf[len(bf)-1-d/8] |= 1 << uint(d%8)
		pre := hexUpper(d)
		for len(pre) < pad {
			pre = "0" + pre
		}
		if len(g) == 1 {
			must(p.AddRawLink(pre+g[0].Name, g[0]))
			continue
		}
		ch := handShard(s, g, lg, level+1, cc)
		must(p.AddRawLink(pre, &ipld.Link{Size: treeSizes(s, ch), Cid: ch.Cid()}))
	}
	for len(bf) > 0 && bf[0] == 0 {
		bf = bf[1:]
	}
	if len(bf) == 0 {
		bf = nil
	}
	typ := pb.Data_HAMTShard
	b, err := proto.Marshal(&pb.Data{Type: &typ, Data: bf, HashType: proto.Uint64(0x22), Fanout: proto.Uint64(uint64(w))})
	must(err)
	p.SetData(b)
	p.SetCidBuilder(cc.b)
	s.Put(p)
	return p
}

func hexUpper(n int) string { return strings.ToUpper(strconv.FormatInt(int64(n), 16)) }

// handDir encodes a directory in a single node.
func handDir(s *Store, ls []*ipld.Link, cc cidCfg) ipld.Node {
	typ := pb.Data_Directory
	b, err := proto.Marshal(&pb.Data{Type: &typ})
	must(err)
	p := dag.NodeWithData(b)
	for _, l := range ls {
		must(p.AddRawLink(l.Name, l))
	}
	p.SetCidBuilder(cc.b)
	s.Put(p)
	return p
}

func handSymlink(s *Store, target string, cc cidCfg) ipld.Node {
	typ := pb.Data_Symlink
	b, err := proto.Marshal(&pb.Data{Type: &typ, Data: []byte(target)})
	must(err)
	p := dag.NodeWithData(b)
	p.SetCidBuilder(cc.b)
	s.Put(p)
	return p
}
