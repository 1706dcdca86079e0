package main

import (
	"bytes"
	"io"

	proto "github.com/gogo/protobuf/proto"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	pb "github.com/ipfs/go-unixfs/pb"
)

func init() {
	scenarios["builder"] = scenBuilder
}

// chunkList is a splitter of given chunks.
type chunkList struct {
	chunks [][]byte
	fail   error // at the end
	after  [][]byte
	join   bool // io.EOF comes with the last chunk
	n      int
}

func (s *chunkList) Reader() io.Reader { return nil }
func (s *chunkList) NextBytes() ([]byte, error) {
	s.n++
	if len(s.chunks) == 0 {
		if s.fail != nil {
			// it fails once: who goes on reading after that gets something
			f := s.fail
			s.fail, s.chunks = nil, s.after
			return nil, f
		}
		return nil, io.EOF
	}
	b := s.chunks[0]
	s.chunks = s.chunks[1:]
	if s.join && len(s.chunks) == 0 && s.fail == nil {
		return b, io.EOF
	}
	return b, nil
}

// blockOf is a block in the terms of the specification.
func blockOf(s *Store, nd ipld.Node) M {
	p := nd.Cid().Prefix()
	m := M{"id": s.ID(nd.Cid()), "k": "raw", "t": "none", "data": []int{}, "bs": []int{}, "links": []int{}, "fs": 0, "v": int(p.Version), "mh": int(p.MhType)}
	n, ok := nd.(*dag.ProtoNode)
	if !ok {
		m["data"], m["fs"] = bytesInts(nd.RawData()), len(nd.RawData())
		return m
	}
	var d pb.Data
	if proto.Unmarshal(n.Data(), &d) != nil {
		m["k"] = "bad"
		return m
	}
	bs := []int{}
	for _, x := range d.GetBlocksizes() {
		bs = append(bs, clampU(x))
	}
	ls := []int{}
	for _, l := range n.Links() {
		ls = append(ls, s.ID(l.Cid))
	}
	m["k"], m["t"], m["data"], m["bs"], m["links"], m["fs"] = "pb", d.GetType().String(), bytesInts(d.GetData()), bs, ls, clampU(d.GetFilesize())
	return m
}

func scenBuilder(c *Case) {
	r := c.R
	s := NewStore()
	ml := 1 + r.Intn(5)
	raw := r.Intn(2) == 0
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	src := &chunkList{join: r.Intn(4) == 0}
	toks := [][]int{}
	for k := r.Intn(12); k > 0; k-- {
		b := make([]byte, 1+r.Intn(4))
		for i := range b {
			b[i] = byte(1 + r.Intn(250))
		}
		if r.Intn(4) == 0 {
			b = bytes.Repeat([]byte{7}, 3)
		}
		src.chunks = append(src.chunks, b)
		toks = append(toks, bytesInts(b))
	}
	if r.Intn(4) == 0 {
		src.fail = sourceErrs[r.Intn(len(sourceErrs))]
		if r.Intn(2) == 0 {
			src.after = [][]byte{{251, 252}}
		}
	}
	limit := 1 << 20
	if r.Intn(5) == 0 {
		limit = 2 + r.Intn(2)
		old := h.BlockSizeLimit
		h.BlockSizeLimit = limit
		defer func() { h.BlockSizeLimit = old }()
	}
	p := &h.DagBuilderParams{Maxlinks: ml, RawLeaves: raw, CidBuilder: cc.b, Dagserv: s}
	fail := src.fail
	db, err := p.New(src)
	must(err)
	c.kind = kindN(len(toks)) + kindN(ml)
	c.Emit("Helper", M{"ml": ml, "raw": raw, "v": cc.ver, "mh": cc.mh, "chunks": toks, "fails": fail != nil, "limit": limit, "got": db.Maxlinks()})

	f0 := 0
	class := func(err error) string {
		switch {
		case err == nil:
			return "nil"
		case isInjected(err) && s.nFaults() > f0:
			return "store"
		case err == h.ErrSizeLimitExceeded:
			return "limit"
		case fail != nil && err == fail:
			return "source"
		case err == dag.ErrNotProtobuf:
			return "notpb"
		}
		return "other"
	}
	var nodes []*h.FSNodeOverDag
	type part struct {
		nd   ipld.Node
		size uint64
	}
	var parts []part // blocks that can be added as children
	kidsOf := map[int]int{}
	for i := 5 + r.Intn(25); i > 0; i-- {
		op := []string{"Done", "Done", "Next", "Leaf", "Leaf", "Leaf", "Make", "Node", "Node", "Add", "Add", "Add", "Add", "Remove", "Data", "Fill", "Fill", "Commit", "Commit", "Load", "Child", "Child"}[r.Intn(22)]
		n := 0
		switch op {
		case "Add", "Remove", "Data", "Fill", "Commit", "Load", "Child":
			if len(nodes) == 0 {
				op = "Node"
				break
			}
			n = r.Intn(len(nodes))
			if op == "Add" && len(parts) == 0 {
				op = "Leaf"
			}
			if (op == "Remove" || op == "Child") && kidsOf[n] == 0 {
				op = "Fill"
			}
		}
		typ := []pb.Data_DataType{pb.Data_File, pb.Data_Raw}[r.Intn(2)]
		ev := M{"op": op, "n": n + 1, "t": typ.String(), "i": 0, "data": []int{}, "isnil": false, "done": false, "block": M{"id": 0, "k": "none"}, "size": 0, "new": []M{}, "kid": 0,
			"num": 0, "fs": 0, "stored": true, "back": M{"num": 0, "fs": 0}}
		fault := false
		if (op == "Add" || op == "Fill") && r.Intn(10) == 0 {
			s.failNth(0, 1+r.Intn(2))
		}
		f0 = s.nFaults()
		before := kidsOf[n]
		var err error
		res := Do(func() {
			switch op {
			case "Done":
				ev["done"] = db.Done()
			case "Next":
				var b []byte
				b, err = db.Next()
				ev["data"], ev["isnil"] = bytesInts(b), b == nil
			case "Leaf", "Make":
				var nd ipld.Node
				var sz uint64
				if op == "Leaf" {
					nd, sz, err = db.NewLeafDataNode(typ)
				} else {
					b := randBytes(r, 5)
					ev["data"] = bytesInts(b)
					nd, err = db.NewLeafNode(b, typ)
					sz = uint64(len(b))
				}
				ev["size"] = int(sz)
				if err == nil {
					ev["block"] = blockOf(s, nd)
					parts = append(parts, part{nd, sz})
				} else if nd != nil {
					ev["block"] = M{"id": 0, "k": "both"}
				}
			case "Node":
				nodes = append(nodes, db.NewFSNodeOverDag(typ))
				n = len(nodes) - 1
				ev["n"] = n + 1
			case "Add":
				p := parts[r.Intn(len(parts))]
				ev["block"], ev["size"] = blockOf(s, p.nd), int(p.size)
				err = nodes[n].AddChild(p.nd, p.size, db)
				ev["kid"] = s.ID(p.nd.Cid())
			case "Remove":
				k := r.Intn(kidsOf[n])
				ev["i"] = k + 1
				nodes[n].RemoveChild(k, db)
			case "Data":
				b := randBytes(r, 6)
				ev["data"] = bytesInts(b)
				nodes[n].SetFileData(b)
			case "Fill":
				err = db.FillNodeLayer(nodes[n])
				nd, e := nodes[n].GetDagNode()
				must(e)
				nw := []M{}
				ls := nd.Links()
				for i := before; i < len(ls); i++ {
					if ch, ok := s.load(ls[i].Cid); ok {
						nw = append(nw, blockOf(s, ch))
					} else {
						nw = append(nw, M{"id": s.ID(ls[i].Cid), "k": "none"})
					}
				}
				ev["new"] = nw
			case "Commit":
				var nd ipld.Node
				nd, err = nodes[n].Commit()
				must2(err)
				ev["block"] = blockOf(s, nd)
				nd2, e := nodes[n].GetDagNode()
				must2(e)
				if !nd2.Cid().Equals(nd.Cid()) {
					ev["block"] = M{"id": 0, "k": "differs"}
				}
				parts = append(parts, part{nd.Copy(), nodes[n].FileSize()})
			case "Load":
				var nd ipld.Node
				nd, err = nodes[n].Commit()
				must2(err)
				must2(db.Add(nd))
				x, ok := s.load(nd.Cid())
				if !ok {
					ev["block"] = M{"id": 0, "k": "unstored"}
					return
				}
				ev["block"] = blockOf(s, x)
				var f *h.FSNodeOverDag
				if r.Intn(2) == 0 {
					f, err = db.NewFSNFromDag(x.(*dag.ProtoNode))
				} else {
					f, err = h.NewFSNFromDag(x.(*dag.ProtoNode))
				}
				if err == nil {
					nodes[n] = f
				}
			case "Child":
				k := r.Intn(kidsOf[n])
				ev["i"] = k + 1
				var f *h.FSNodeOverDag
				f, err = nodes[n].GetChild(bgctx, k, s)
				if err == nil {
					nd, e := f.Commit()
					must2(e)
					ev["block"], ev["back"] = blockOf(s, nd), M{"num": f.NumChildren(), "fs": int(f.FileSize())}
				}
			}
		})
		s.heal()
		fault = s.nFaults() > f0
		if n < len(nodes) && res == "ok" {
			res = Do(func() {
				ev["num"], ev["fs"] = nodes[n].NumChildren(), int(nodes[n].FileSize())
				nd, e := nodes[n].GetDagNode()
				must2(e)
				kidsOf[n] = len(nd.Links())
				ids := []int{}
				for _, l := range nd.Links() {
					ids = append(ids, s.ID(l.Cid))
					if _, ok := s.Raw(l.Cid); !ok {
						ev["stored"] = false
					}
				}
				ev["ids"] = ids
			})
		}
		ev["res"], ev["err"], ev["fault"] = res, class(err), fault
		c.Emit("Op", ev)
		if res != "ok" {
			return
		}
		if err != nil && (op == "Add" || op == "Fill") && fault {
			return // the child isn't in the store: whoever builds has to give up
		}
	}
}
