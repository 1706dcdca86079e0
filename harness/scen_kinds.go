package main

import (
	"bytes"
	"context"
	"io"
	"math/bits"
	"math/rand"

	proto "github.com/gogo/protobuf/proto"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	pb "github.com/ipfs/go-unixfs/pb"
)

func init() {
	scenarios["kinds"] = scenKinds
}

// otherNode is a node that is neither dag-pb nor raw.
type otherNode struct{ ipld.Node }

func (o otherNode) Copy() ipld.Node { return otherNode{o.Node.Copy()} }

// kindNode makes an object of any type, and describes it.
func kindNode(r *rand.Rand, s *Store, depth int) (ipld.Node, M) {
	m := M{"k": "pb", "t": "", "data": []int{}, "fs": 0, "links": 0, "kid": M{"k": "none"}, "ht": 0, "fan": 0, "bits": 0, "bf": 0}
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	data := randBytes(r, 12)
	switch r.Intn(9) {
	case 0:
		nd := handLeaf(s, 0, data, cc)
		m["k"], m["data"], m["fs"] = "raw", bytesInts(data), len(data)
		if r.Intn(3) == 0 {
			m["k"] = "other"
			return otherNode{nd}, m
		}
		return nd, m
	case 1:
		if r.Intn(2) == 0 {
			p := dag.NodeWithData([]byte("\x07garbage\xff"))
			s.Put(p)
			m["k"] = "bad"
			return p, m
		}
	}
	t := pb.Data_DataType(r.Intn(8))
	if r.Intn(4) == 0 {
		t = pb.Data_Metadata
	} else if r.Intn(4) == 0 {
		t = pb.Data_HAMTShard
	}
	d := &pb.Data{Type: &t, Data: data}
	m["t"] = t.String()
	p := dag.NodeWithData(nil)
	p.SetCidBuilder(cc.b)
	nl := r.Intn(3)
	if t != pb.Data_HAMTShard && t != pb.Data_Metadata {
		nl = 0
		if t == pb.Data_Directory {
			nl = r.Intn(3)
		}
	}
	ones := 0
	switch t {
	case pb.Data_HAMTShard:
		fan := []uint64{8, 8, 16, 256, 1024, 2048, 12, 4, 0, 1, 24, 1 << 40}[r.Intn(12)]
		ht := uint64(0x22)
		if r.Intn(4) == 0 {
			ht = []uint64{0, 0x12, 0x1e, 0x23}[r.Intn(4)]
		}
		d.Fanout, d.HashType = &fan, &ht
		w := int(fan)
		if w < 8 || w > 2048 || w%8 != 0 {
			w = 8
		}
		bf := make([]byte, w/8)
		for _, i := range r.Perm(w)[:minI(nl, w)] {
			bf[len(bf)-1-i/8] |= 1 << uint(i%8)
		}
		if r.Intn(3) == 0 {
			bf[r.Intn(len(bf))] ^= 1 << uint(r.Intn(8))
		}
		switch r.Intn(6) {
		case 0:
			bf = append(make([]byte, 1), bf...)
		case 1, 2, 3:
			for len(bf) > 0 && bf[0] == 0 {
				bf = bf[1:]
			}
		}
		d.Data = bf
		for _, b := range bf {
			ones += bits.OnesCount8(b)
		}
		m["ht"], m["fan"], m["bf"], m["bits"] = int(ht), clampU(fan), len(bf), ones
	case pb.Data_File, pb.Data_Raw:
		d.Filesize = proto.Uint64(uint64(len(data)))
	}
	for i := 0; i < nl; i++ {
		if i == 0 && t == pb.Data_Metadata && depth > 0 {
			ch, km := kindNode(r, s, depth-1)
			if km["k"] == "other" {
				ch, km["k"] = ch.(otherNode).Node, "raw"
			}
			m["kid"] = km
			if r.Intn(8) == 0 {
				s.Remove(bgctx, ch.Cid())
				m["kid"] = M{"k": "missing"}
			}
			must(p.AddRawLink("", &ipld.Link{Cid: ch.Cid(), Size: treeSizes(s, ch)}))
			continue
		}
		ch := handLeaf(s, r.Intn(3), []byte{byte(i), 'x'}, cc)
		if i == 0 {
			km := M{"k": "raw", "t": "", "data": []int{}, "fs": 2, "links": 0, "kid": M{"k": "none"}, "ht": 0, "fan": 0, "bits": 0, "bf": 0}
			km["data"] = bytesInts([]byte{byte(i), 'x'})
			if n, ok := ch.(*dag.ProtoNode); ok {
				var x pb.Data
				must(proto.Unmarshal(n.Data(), &x))
				km["k"], km["t"] = "pb", x.GetType().String()
			}
			m["kid"] = km
		}
		must(p.AddRawLink([]string{"0a", "1b", "2c"}[i], &ipld.Link{Cid: ch.Cid(), Size: treeSizes(s, ch)}))
	}
	b, err := proto.Marshal(d)
	must(err)
	p.SetData(b)
	s.Put(p)
	m["links"], m["data"] = nl, bytesInts(d.Data)
	if d.Filesize != nil {
		m["fs"] = int(*d.Filesize)
	}
	return p, m
}

func kindErr(err error) string {
	switch err {
	case nil:
		return "nil"
	case uio.ErrIsDir:
		return "isdir"
	case uio.ErrCantReadSymlinks:
		return "symlink"
	case uio.ErrUnkownNodeType:
		return "unknown"
	case uio.ErrNotADir:
		return "notadir"
	case dag.ErrNotProtobuf:
		return "notpb"
	case mod.ErrNotUnixfs:
		return "notunixfs"
	case ft.ErrUnrecognizedType:
		return "type"
	}
	return "other"
}

func scenKinds(c *Case) {
	r := c.R
	s := NewStore()
	nd, m := kindNode(r, s, 2)
	c.kind = m["k"].(string) + m["t"].(string)
	c.Emit("Object", M{"node": m})
	for _, what := range []string{"reader", "dir", "view", "hamt", "data", "extract", "modify", "basic"} {
		ctx, cancel := context.WithCancel(bgctx)
		x := nd
		if n, ok := s.load(nd.Cid()); ok && m["k"] != "other" && r.Intn(2) == 0 {
			x = n
		}
		id, enc := x.Cid(), append([]byte{}, x.RawData()...)
		adds, f0 := s.adds, s.nFaults()
		if r.Intn(10) == 0 {
			s.failNth(1, 0)
		}
		var err error
		got := M{"k": "none", "size": 0, "data": []int{}, "links": 0}
		full := func(rd io.Reader) []int {
			b, e := io.ReadAll(rd)
			if e != nil {
				return []int{-1}
			}
			return bytesInts(b)
		}
		res := Do(func() {
			switch what {
			case "reader":
				var dr uio.DagReader
				dr, err = uio.NewDagReader(ctx, x, s)
				s.heal()
				if err == nil {
					got["k"], got["size"], got["data"] = "file", int(dr.Size()), full(dr)
				} else if dr != nil {
					got["k"] = "both"
				}
			case "dir", "basic":
				var d uio.Directory
				d, err = uio.NewDirectoryFromNode(s, x)
				s.heal()
				if err == nil {
					// A shard may have links with bad names: it isn't written then.
					got["k"], got["links"] = "dir", -1
					n, e := d.GetNode()
					if e == nil && n != nil {
						got["links"] = len(n.Links())
						if what == "basic" && m["t"] == "Directory" {
							// Changing the directory doesn't change the node.
							d.AddChild(ctx, "more", handLeaf(s, 0, []byte("more"), cidCfgs[0]))
							d.RemoveChild(ctx, "0a")
						}
					}
				} else if d != nil {
					got["k"] = "both"
				}
			case "view":
				var n files.Node
				n, err = unixfile.NewUnixfsFile(ctx, s, x)
				s.heal()
				switch v := n.(type) {
				case nil:
				case *files.Symlink:
					got["k"], got["data"] = "link", bytesInts([]byte(v.Target))
				case files.Directory:
					got["k"] = "dir"
				case files.File:
					sz, _ := v.Size()
					got["k"], got["size"], got["data"] = "file", int(sz), full(v)
				}
			case "hamt":
				var sh *hamt.Shard
				sh, err = hamt.NewHamtFromDag(s, x)
				s.heal()
				if sh != nil {
					got["k"] = "dir"
				}
			case "data":
				var b []byte
				b, err = ft.ReadUnixFSNodeData(x)
				if err == nil {
					got["k"], got["data"] = "data", bytesInts(b)
				}
			case "extract":
				var n *ft.FSNode
				n, err = ft.ExtractFSNode(x)
				if n != nil {
					got["k"], got["data"] = n.Type().String(), bytesInts(n.Data())
				}
			case "modify":
				var dm *mod.DagModifier
				dm, err = mod.NewDagModifier(ctx, x, s, chunker.DefaultSplitter)
				if dm != nil {
					got["k"] = "mod"
				}
			}
		})
		s.heal()
		cancel()
		same := x.Cid().Equals(id) && bytes.Equal(x.RawData(), enc)
		stored := s.adds - adds
		if what == "basic" || what == "dir" {
			stored = 0 // by GetNode
		}
		c.Emit("Open", M{"what": what, "err": kindErr(err), "got": got, "res": res, "same": same, "stored": stored, "fault": s.nFaults() > f0})
		if res != "ok" {
			return
		}
	}
	if r.Intn(4) > 0 {
		return
	}
	// A new sharded directory of any width.
	w := r.Intn(2100) - 40
	switch r.Intn(4) {
	case 0, 1:
		w = 1 << uint(r.Intn(14))
	case 2:
		w = []int{0, -1, -8, -256, 9, 24, 250, 1 << 20, 1 << 30, 1 << 40, 1<<62 + 8, -1 << 63}[r.Intn(12)]
	}
	fan, hash := 0, 0
	var err error
	res := Do(func() {
		var sh *hamt.Shard
		if sh, err = hamt.NewShard(s, w); err != nil {
			return
		}
		var n ipld.Node
		if r.Intn(2) == 0 {
			if err = sh.Set(bgctx, "x", nd); err != nil {
				return
			}
		}
		if n, err = sh.Node(); err != nil {
			return
		}
		var d pb.Data
		must(proto.Unmarshal(n.(*dag.ProtoNode).Data(), &d))
		fan, hash = int(d.GetFanout()), int(d.GetHashType())
	})
	c.Emit("New", M{"w": clampI(int64(w)), "fan": fan, "hash": hash, "ok": err == nil, "res": res})
}
