package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"runtime/metrics"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	pb "github.com/ipfs/go-unixfs/pb"
	mh "github.com/multiformats/go-multihash"
)

func init() {
	scenarios["malformed"] = scenMalformed
}

// badDag makes blocks of any shape: whatever can be encoded as dag-pb or raw.
type badDag struct {
	r     *rand.Rand
	s     *Store
	nodes []ipld.Node
	cost  []int // nodes of the tree under each
	names []string
	desc  []M
	ix    map[string]int
}

func (g *badDag) number() uint64 {
	r := g.r
	switch r.Intn(9) {
	case 0:
		return 0
	case 1:
		return 1<<64 - 1
	case 2:
		return 1 << 63
	case 3:
		return 1<<63 - 1
	case 4:
		return r.Uint64()
	case 5:
		return uint64(r.Uint32())
	case 6:
		return 1 << uint(r.Intn(64))
	}
	return uint64(r.Intn(40))
}

func (g *badDag) missing() cid.Cid {
	r := g.r
	b := make([]byte, 8)
	r.Read(b)
	sum, err := mh.Sum(b, mh.SHA2_256, -1)
	must(err)
	switch r.Intn(4) {
	case 0:
		return cid.NewCidV0(sum)
	case 1:
		return cid.NewCidV1(cid.DagCBOR, sum)
	case 2:
		return cid.NewCidV1(cid.Raw, sum)
	}
	return cid.NewCidV1(cid.DagProtobuf, sum)
}

func (g *badDag) linkName(fan uint64, i int) string {
	r := g.r
	pad := len(fmt.Sprintf("%X", fan-1))
	if pad > 6 {
		pad = 6
	}
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("%0*X", pad, i)
	case 2:
		return fmt.Sprintf("%0*x", pad, i)
	case 3:
		return fmt.Sprintf("%0*X", pad, r.Intn(600))
	case 4:
		return fmt.Sprintf("%0*X%s", pad, r.Intn(600), g.names[r.Intn(len(g.names))])
	case 5:
		return "x"
	case 6:
		return g.names[r.Intn(len(g.names))]
	case 7:
		return "ZZ\x00é"
	}
	return fmt.Sprintf("%0*X%s", pad, i, g.names[r.Intn(len(g.names))])
}

// add makes one more node, whose children are nodes made before.
func (g *badDag) add() {
	r := g.r
	if r.Intn(6) == 0 {
		b := make([]byte, r.Intn(30))
		r.Read(b)
		g.put(dag.NewRawNode(b), len(b))
		return
	}
	var d pb.Data
	t := pb.Data_DataType(r.Intn(6))
	switch r.Intn(12) {
	case 0:
		t = pb.Data_DataType(6 + r.Intn(3))
	case 1, 2, 3, 4:
		t = pb.Data_File
	case 5, 6, 7:
		t = pb.Data_HAMTShard
	}
	d.Type = &t
	k := 0
	if len(g.nodes) > 0 && r.Intn(3) > 0 {
		k = r.Intn(6)
		if r.Intn(10) == 0 {
			k = 10 + r.Intn(20)
		}
	}
	var cs []int
	total := 1
	for i := 0; i < k; i++ {
		j := r.Intn(len(g.nodes))
		if r.Intn(3) == 0 {
			j = len(g.nodes) - 1
		}
		if r.Intn(14) == 0 {
			j = -1
		} else {
			if total+g.cost[j] > 400 {
				continue
			}
			total += g.cost[j]
		}
		cs = append(cs, j)
	}
	sizeOf := func(j int) uint64 {
		if j < 0 {
			return uint64(r.Intn(20))
		}
		if n, ok := g.nodes[j].(*dag.RawNode); ok {
			return uint64(len(n.RawData()))
		}
		x, err := dataSize(g.nodes[j])
		if err != nil {
			return 3
		}
		return x
	}
	fan := uint64([]int{8, 8, 8, 16, 32, 256, 256, 1024}[r.Intn(8)])
	dl := 0
	if t == pb.Data_HAMTShard {
		w := int(fan)
		if r.Intn(5) == 0 {
			switch r.Intn(8) {
			case 0:
				fan = 0
			case 1:
				fan = 1
			case 2:
				fan = 7
			case 3:
				fan = uint64(r.Intn(300))
			case 4:
				fan = 1 << uint(r.Intn(64))
			default:
				fan = g.number()
			}
		}
		bf := make([]byte, w/8)
		ones := len(cs)
		if r.Intn(5) == 0 {
			ones = r.Intn(w)
		}
		pos := map[int]bool{}
		for _, i := range r.Perm(w)[:minI(ones, w)] {
			pos[i] = true
			bf[len(bf)-1-i/8] |= 1 << uint(i%8)
		}
		switch r.Intn(8) {
		case 0:
			bf = append(make([]byte, r.Intn(3)), bf...)
		case 1:
			for len(bf) > 0 && bf[0] == 0 {
				bf = bf[1:]
			}
		case 2:
			bf = append([]byte{byte(r.Intn(256))}, bf...)
		case 3:
			bf = bf[:r.Intn(len(bf)+1)]
		}
		d.Data = bf
		dl = len(bf)
		if r.Intn(15) > 0 {
			d.Fanout = proto.Uint64(fan)
		}
		switch r.Intn(10) {
		case 0:
		case 1:
			d.HashType = proto.Uint64(g.number())
		default:
			d.HashType = proto.Uint64(hamt.HashMurmur3)
		}
		var ls []*ipld.Link
		i := 0
		for p := 0; p < w; p++ {
			if pos[p] && i < len(cs) {
				ls = append(ls, g.link(cs[i], g.linkName(fan, p)))
				i++
			}
		}
		for ; i < len(cs); i++ {
			ls = append(ls, g.link(cs[i], g.linkName(fan, r.Intn(w))))
		}
		g.finish(&d, ls, total, dl)
		return
	}
	if r.Intn(3) == 0 || k == 0 && r.Intn(4) > 0 {
		d.Data = make([]byte, r.Intn(30))
		r.Read(d.Data)
		dl = len(d.Data)
	}
	sum := uint64(dl)
	for _, j := range cs {
		x := sizeOf(j)
		if r.Intn(8) == 0 {
			x = g.number()
		}
		d.Blocksizes = append(d.Blocksizes, x)
		sum += x
	}
	switch r.Intn(8) {
	case 0:
		if len(d.Blocksizes) > 0 {
			d.Blocksizes = d.Blocksizes[:len(d.Blocksizes)-1]
		}
	case 1:
		d.Blocksizes = append(d.Blocksizes, uint64(r.Intn(30)))
	case 2:
		for i := r.Intn(3); i >= 0; i-- {
			d.Blocksizes = append(d.Blocksizes, g.number())
		}
	case 3:
		if r.Intn(3) == 0 {
			d.Blocksizes = nil
		}
	}
	switch r.Intn(8) {
	case 0:
	case 1:
		d.Filesize = proto.Uint64(g.number())
	case 2:
		d.Filesize = proto.Uint64(sum + uint64(r.Intn(20)))
	default:
		d.Filesize = proto.Uint64(sum)
	}
	if r.Intn(12) == 0 {
		d.HashType, d.Fanout = proto.Uint64(g.number()), proto.Uint64(g.number())
	}
	var ls []*ipld.Link
	for _, j := range cs {
		n := ""
		if t == pb.Data_Directory || r.Intn(10) == 0 {
			n = g.linkName(8, 3)
		}
		ls = append(ls, g.link(j, n))
	}
	g.finish(&d, ls, total, dl)
}

func dataSize(n ipld.Node) (uint64, error) {
	var d pb.Data
	if err := proto.Unmarshal(n.(*dag.ProtoNode).Data(), &d); err != nil {
		return 0, err
	}
	return d.GetFilesize(), nil
}

func (g *badDag) link(j int, name string) *ipld.Link {
	l := &ipld.Link{Name: name}
	if j < 0 {
		l.Cid = g.missing()
	} else {
		l.Cid = g.nodes[j].Cid()
		l.Size = treeSizes(g.s, g.nodes[j])
	}
	if g.r.Intn(8) == 0 {
		// Not more than go-merkledag agrees to encode again.
		l.Size = g.number() >> 16
	}
	return l
}

func (g *badDag) finish(d *pb.Data, ls []*ipld.Link, total, dl int) {
	r := g.r
	b, err := proto.Marshal(d)
	must(err)
	switch r.Intn(16) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
		}
	case 2:
		b = nil
	}
	n := dag.NodeWithData(b)
	for _, l := range ls {
		must(n.AddRawLink(l.Name, l))
	}
	if b == nil && r.Intn(2) == 0 {
		n.SetData(nil)
	}
	n.SetCidBuilder(cidCfgs[r.Intn(len(cidCfgs))].b)
	g.putCost(n, total, len(b))
	_ = dl
}

func (g *badDag) put(n ipld.Node, dl int) { g.putCost(n, 1, dl) }
func (g *badDag) putCost(n ipld.Node, cost, dl int) {
	g.s.Put(n)
	k := []int{}
	for _, l := range n.Links() {
		k = append(k, g.ix[l.Cid.KeyString()])
	}
	g.nodes = append(g.nodes, n)
	g.cost = append(g.cost, cost)
	g.desc = append(g.desc, M{"dl": dl, "kids": k})
	g.ix[n.Cid().KeyString()] = len(g.nodes)
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

type countW struct {
	n, max int
}

func (w *countW) Write(b []byte) (int, error) {
	w.n += len(b)
	if w.n > w.max {
		return 0, io.ErrShortWrite
	}
	return len(b), nil
}

func scenMalformed(c *Case) {
	r := c.R
	s := NewStore()
	g := &badDag{r: r, s: s, names: []string{"a", "b", "foo", "00", "0A", "é", "a/b", "..", nameWithHash(r.Uint64(), r)}, ix: map[string]int{}}
	for i := 2 + r.Intn(10); i > 0; i-- {
		g.add()
	}
	if r.Intn(3) == 0 {
		// A good file or directory, made bad in one place.
		g.nearMiss()
	}
	oldT, oldW, oldL := uio.HAMTShardingSize, uio.DefaultShardWidth, h.DefaultLinksPerBlock
	defer func() { uio.HAMTShardingSize, uio.DefaultShardWidth, h.DefaultLinksPerBlock = oldT, oldW, oldL }()
	uio.HAMTShardingSize = []int{0, 1, 40, 1 << 20}[r.Intn(4)]
	uio.DefaultShardWidth = 8
	h.DefaultLinksPerBlock = []int{2, 3, 5, 174}[r.Intn(4)]
	c.kind = kindN(len(g.nodes)) + kindN(g.cost[len(g.cost)-1])
	c.Emit("Dag", M{"nodes": g.desc})

	for k := 4 + r.Intn(8); k > 0; k-- {
		ix := len(g.nodes)
		if r.Intn(3) == 0 {
			ix = 1 + r.Intn(len(g.nodes))
		}
		nd, ok := s.load(g.nodes[ix-1].Cid())
		if !ok {
			c.Emit("Broken", M{"why": "load"})
			return
		}
		ctx, cancel := context.WithCancel(bgctx)
		what := []string{"read", "read", "seek", "seek", "dir", "dir", "hamt", "hamt", "resolve", "view", "modify", "modify", "modify", "append", "append", "decode", "verify"}[r.Intn(17)]
		bytesOut, links := -1, -1
		detail := []string{}
		before := allocated()
		res := Do(func() {
			switch what {
			case "read":
				bytesOut = g.read(ctx, nd)
			case "seek":
				g.seek(ctx, nd)
			case "dir":
				links = g.dir(ctx, nd, &detail)
			case "hamt":
				links = g.hamt(ctx, nd)
			case "resolve":
				for i := 0; i < 3; i++ {
					ns := []string{}
					for j := r.Intn(4); j > 0; j-- {
						ns = append(ns, g.names[r.Intn(len(g.names))])
					}
					x, _, err := uio.ResolveUnixfsOnce(ctx, s, nd, ns)
					result(err, x == nil && len(ns) > 0)
				}
			case "view":
				g.view(ctx, nd)
			case "modify":
				g.modify(ctx, nd, &detail)
			case "append":
				g.append(ctx, nd)
			case "decode":
				g.decode(nd)
			case "verify":
				trickle.VerifyTrickleDagStructure(nd, trickle.VerifyParams{Getter: s, Direct: 2, LayerRepeat: 4, RawLeaves: r.Intn(2) == 0})
			}
		})
		grew := allocated() - before
		cancel()
		c.Emit("Call", M{"what": what, "i": ix, "res": res, "bytes": bytesOut, "links": links, "mb": clampU(grew >> 20), "detail": detail})
		if res == "hang" {
			c.hung = true
			return
		}
	}
}

// nearMiss takes a well-formed object and spoils one of its blocks.
func (g *badDag) nearMiss() {
	r, s := g.r, g.s
	var root ipld.Node
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	if r.Intn(2) == 0 {
		f := mkFile(r, s, 40)
		root = f.root
	} else {
		var ls []*ipld.Link
		for _, n := range mkNames(r, 1+r.Intn(12), 3, false, false) {
			x := g.nodes[r.Intn(len(g.nodes))]
			ls = append(ls, &ipld.Link{Name: n, Cid: x.Cid(), Size: treeSizes(s, x)})
			g.names = append(g.names, n)
		}
		root = handShard(s, ls, 3, 0, cc)
	}
	var walk func(n ipld.Node) int
	left := r.Intn(12)
	walk = func(n ipld.Node) int {
		if i := g.ix[n.Cid().KeyString()]; i > 0 {
			return g.cost[i-1]
		}
		cost := 1
		spoil := left == 0
		left--
		var ls []*ipld.Link
		for _, l := range n.Links() {
			ch, ok := s.load(l.Cid)
			if !ok {
				continue
			}
			cost += walk(ch)
			ch = g.nodes[len(g.nodes)-1]
			if i := g.ix[l.Cid.KeyString()]; i > 0 {
				ch = g.nodes[i-1]
			}
			ls = append(ls, &ipld.Link{Name: l.Name, Size: l.Size, Cid: ch.Cid()})
		}
		p, ok := n.(*dag.ProtoNode)
		if !ok {
			x := n
			if spoil && r.Intn(2) == 0 {
				x = dag.NewRawNode(append([]byte("spoilt"), n.RawData()...)[:r.Intn(7+len(n.RawData()))])
			}
			g.put(x, len(x.RawData()))
			return 1
		}
		data := p.Data()
		if spoil {
			var d pb.Data
			if proto.Unmarshal(data, &d) == nil {
				switch r.Intn(9) {
				case 0:
					d.Blocksizes = append(d.Blocksizes, g.number())
				case 1:
					if k := len(d.Blocksizes); k > 0 {
						d.Blocksizes = d.Blocksizes[:k-1]
					}
				case 2:
					d.Filesize = proto.Uint64(g.number())
				case 3:
					if k := len(d.Blocksizes); k > 0 {
						d.Blocksizes[r.Intn(k)] = g.number()
					}
				case 4:
					t := pb.Data_DataType(r.Intn(7))
					d.Type = &t
				case 5:
					d.Data = append(d.Data, 1)
				case 6:
					d.Data = nil
				case 7:
					if len(ls) > 0 {
						ls[r.Intn(len(ls))].Name = g.linkName(8, r.Intn(8))
					}
				case 8:
					if len(ls) > 0 {
						ls = ls[:len(ls)-1]
					}
				}
				var err error
				data, err = proto.Marshal(&d)
				must(err)
			}
		}
		x := dag.NodeWithData(data)
		x.SetCidBuilder(p.CidBuilder())
		for _, l := range ls {
			must(x.AddRawLink(l.Name, l))
		}
		g.putCost(x, cost, len(data))
		return cost
	}
	walk(root)
}

// result: what was returned is a result or an error.
func result(err error, none bool) {
	if err == nil && none {
		panic("neither a result nor an error")
	}
}

func (g *badDag) read(ctx context.Context, nd ipld.Node) int {
	r := g.r
	dr, err := uio.NewDagReader(ctx, nd, g.s)
	result(err, dr == nil)
	if err != nil {
		return -1
	}
	defer dr.Close()
	dr.Size()
	n := 0
	if r.Intn(3) == 0 {
		w := &countW{max: 1 << 20}
		dr.WriteTo(w)
		return w.n
	}
	buf := make([]byte, 1+r.Intn(60))
	for i := 0; i < 100000; i++ {
		var k int
		if r.Intn(2) == 0 {
			k, err = dr.Read(buf)
		} else {
			k, err = dr.CtxReadFull(ctx, buf)
		}
		n += k
		if err != nil {
			return n
		}
	}
	return 1 << 30
}

func (g *badDag) seek(ctx context.Context, nd ipld.Node) {
	r := g.r
	dr, err := uio.NewDagReader(ctx, nd, g.s)
	result(err, dr == nil)
	if err != nil {
		return
	}
	defer dr.Close()
	buf := make([]byte, 1+r.Intn(30))
	for i := 0; i < 12; i++ {
		switch r.Intn(8) {
		case 0:
			dr.Read(buf)
		case 1:
			dr.Seek(int64(g.number()), r.Intn(3))
		case 2:
			dr.Seek(-int64(r.Intn(20)), r.Intn(3))
		case 3:
			dr.Seek(int64(dr.Size())-int64(r.Intn(30)), 0)
		case 4:
			dr.WriteTo(&countW{max: r.Intn(100)})
		default:
			dr.Seek(int64(r.Intn(60)), 0)
			dr.CtxReadFull(ctx, buf)
		}
	}
}

func (g *badDag) dir(ctx context.Context, nd ipld.Node, detail *[]string) int {
	r := g.r
	d, err := uio.NewDirectoryFromNode(g.s, nd)
	result(err, d == nil)
	if err != nil {
		return -1
	}
	ls, err := d.Links(ctx)
	n := len(ls)
	for i := 1 + r.Intn(8); i > 0; i-- {
		nm := g.names[r.Intn(len(g.names))]
		k := r.Intn(8)
		*detail = append(*detail, fmt.Sprintf("%d %x", k, nm))
		switch k {
		case 0:
			x, err := d.Find(ctx, nm)
			result(err, x == nil)
		case 1, 2:
			d.AddChild(ctx, nm, g.nodes[r.Intn(len(g.nodes))])
		case 3:
			d.RemoveChild(ctx, nm)
		case 4:
			x, err := d.GetNode()
			result(err, x == nil)
		case 5:
			d.ForEachLink(ctx, func(*ipld.Link) error { return nil })
		case 6:
			for range d.EnumLinksAsync(ctx) {
			}
		case 7:
			uio.HAMTShardingSize = []int{0, 1, 40, 1 << 20}[r.Intn(4)]
		}
	}
	return n
}

func (g *badDag) hamt(ctx context.Context, nd ipld.Node) int {
	r := g.r
	d, err := hamt.NewHamtFromDag(g.s, nd)
	result(err, d == nil)
	if err != nil {
		return -1
	}
	n := -1
	if r.Intn(2) == 0 {
		ls, _ := d.EnumLinks(ctx)
		n = len(ls)
	}
	for i := 1 + r.Intn(8); i > 0; i-- {
		nm := g.names[r.Intn(len(g.names))]
		switch r.Intn(8) {
		case 0:
			x, err := d.Find(ctx, nm)
			result(err, x == nil)
		case 1, 2:
			d.Set(ctx, nm, g.nodes[r.Intn(len(g.nodes))])
		case 3:
			d.Remove(ctx, nm)
		case 4:
			x, err := d.Node()
			result(err, x == nil)
		case 5:
			d.ForEachLink(ctx, func(*ipld.Link) error { return nil })
		case 6:
			d.EnumLinks(ctx)
		case 7:
			d.Take(ctx, nm)
		}
	}
	return n
}

func (g *badDag) view(ctx context.Context, nd ipld.Node) {
	budget := 600
	var visit func(n files.Node)
	visit = func(n files.Node) {
		if budget--; budget < 0 || n == nil {
			return
		}
		n.Size()
		switch x := n.(type) {
		case files.Directory:
			it := x.Entries()
			for it.Next() {
				it.Name()
				result(nil, it.Node() == nil)
				visit(it.Node())
			}
			it.Err()
		case files.File:
			buf := make([]byte, 20)
			for i := 0; i < 1000; i++ {
				if _, err := x.Read(buf); err != nil {
					break
				}
			}
			x.Seek(int64(g.r.Intn(40)), 0)
		}
	}
	n, err := unixfile.NewUnixfsFile(ctx, g.s, nd)
	result(err, n == nil)
	if err == nil {
		visit(n)
	}
}

func (g *badDag) modify(ctx context.Context, nd ipld.Node, detail *[]string) {
	r := g.r
	if r.Intn(4) == 0 {
		// Not taken from the store.
		nd = nd.Copy()
	}
	dm, err := mod.NewDagModifier(ctx, nd, g.s, chunker.SizeSplitterGen(int64(1+r.Intn(8))))
	result(err, dm == nil)
	if err != nil {
		return
	}
	dm.RawLeaves = r.Intn(2) == 0
	last := false
	off := func() int64 {
		sz, err := dm.Size()
		if err == nil && sz > 0 && r.Intn(3) == 0 && (sz < 1000 || !dm.HasChanges()) {
			// A place much behind the end is a request for that many zeros:
			// not to be done by accident later.
			last = sz >= 1000
			return sz - int64(r.Intn(20))
		}
		return int64(r.Intn(80))
	}
	for i := 1 + r.Intn(6); i > 0 && !last; i-- {
		o := off()
		b := make([]byte, r.Intn(12))
		k := r.Intn(8)
		*detail = append(*detail, fmt.Sprintf("%d %d %d", k, o, len(b)))
		switch k {
		case 0:
			dm.Write(b)
		case 1, 2:
			dm.WriteAt(b, o)
		case 3, 4:
			dm.Truncate(o)
		case 5:
			dm.Read(make([]byte, 10))
		case 6:
			dm.Seek(o, 0)
		case 7:
			x, err := dm.GetNode()
			result(err, x == nil)
		}
	}
	x, err := dm.GetNode()
	result(err, x == nil)
	dm.HasChanges()
}

func (g *badDag) append(ctx context.Context, nd ipld.Node) {
	r := g.r
	p := &h.DagBuilderParams{Maxlinks: 2 + r.Intn(3), RawLeaves: r.Intn(2) == 0, Dagserv: g.s}
	db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(make([]byte, r.Intn(30))), 2))
	must(err)
	x, err := trickle.Append(ctx, nd, db)
	result(err, x == nil)
}

func (g *badDag) decode(nd ipld.Node) {
	var b []byte
	if p, ok := nd.(*dag.ProtoNode); ok {
		b = p.Data()
	} else {
		b = nd.RawData()
	}
	ft.DataSize(b)
	ft.UnwrapData(b)
	ft.MetadataFromBytes(b)
	ft.ReadUnixFSNodeData(nd)
	ft.ExtractFSNode(nd)
	if f, err := ft.FSNodeFromBytes(b); err == nil {
		f.FileSize()
		f.IsDir()
		f.GetBytes()
		f.SetData([]byte("x"))
		f.AddBlockSize(g.number())
		f.RemoveAllBlockSizes()
		f.GetBytes()
	}
}

var _ = hex.EncodeToString
