package main

import (
	"context"
	"encoding/json"
	"errors"
	"math/rand"
	"os"
	"sort"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"
	mh "github.com/multiformats/go-multihash"
)

func init() {
	scenarios["dir"] = func(c *Case) { scenDir(c, "dir", false) }
	scenarios["dirfault"] = func(c *Case) { scenDir(c, "dir", true) }
	scenarios["hamt"] = func(c *Case) { scenDir(c, "hamt", false) }
	scenarios["hamtfault"] = func(c *Case) { scenDir(c, "hamt", true) }
}

// universe of names and nodes of one case, known to the specification by
// their numbers.
type universe struct {
	names []string
	nix   map[string]int
	nodes []ipld.Node
	cix   map[string]int
}

// rename replaces the names.
func (u *universe) rename(names []string) {
	u.names, u.nix = names, map[string]int{}
	for i, n := range names {
		u.nix[n] = i + 1
	}
}

// genNames makes names whose hashes begin with the given digits, which stand
// for any digits of lg bits; the rest of the hash is random.
func genNames(r *rand.Rand, dg [][]int, lg int) []string {
	p := r.Perm(1 << uint(lg))
	var out []string
	for _, ds := range dg {
		h := r.Uint64()
		for l, d := range ds {
			sh := uint(64 - lg*(l+1))
			h = h&^((1<<uint(lg)-1)<<sh) | uint64(p[d])<<sh
		}
		out = append(out, nameWithHash(h, r))
	}
	return out
}

func mkUniverse(r *rand.Rand, s *Store, nNames, nNodes, lg int, collide, empty bool) *universe {
	u := &universe{nix: map[string]int{}, cix: map[string]int{}}
	u.names = mkNames(r, nNames, lg, collide, empty)
	for i, n := range u.names {
		u.nix[n] = i + 1
	}
	for len(u.nodes) < nNodes {
		var nd ipld.Node
		b := make([]byte, 1+r.Intn(20))
		r.Read(b)
		switch r.Intn(6) {
		case 0:
			nd = dag.NewRawNode(b)
		case 1:
			p := cid.V1Builder{Codec: cid.Raw, MhType: mh.SHA2_512}
			x, err := dag.NewRawNodeWPrefix(b, p)
			must(err)
			nd = x
		case 2:
			p := cid.V1Builder{Codec: cid.Raw, MhType: mh.SHA1}
			x, err := dag.NewRawNodeWPrefix(b, p)
			must(err)
			nd = x
		case 3:
			nd = dag.NodeWithData(ft.FilePBData(b, uint64(len(b))))
		case 4:
			x := dag.NodeWithData(ft.FilePBData(b, uint64(len(b))))
			x.SetCidBuilder(cidCfgs[r.Intn(len(cidCfgs))].b)
			nd = x
		case 5:
			// A node with links: its cumulative size is more than its own.
			ch := dag.NewRawNode(b)
			s.Put(ch)
			x := ft.EmptyDirNode()
			must(x.AddNodeLink("x", ch))
			nd = x
		}
		if u.cix[nd.Cid().KeyString()] > 0 {
			continue
		}
		u.nodes = append(u.nodes, nd)
		u.cix[nd.Cid().KeyString()] = len(u.nodes)
		s.Put(nd)
	}
	return u
}

// genSizes makes names and nodes whose CIDs have the given lengths, times k.
func genSizes(r *rand.Rand, s *Store, nl, cl []int, k int) *universe {
	u := &universe{nix: map[string]int{}, cix: map[string]int{}}
	for _, n := range nl {
		for {
			b := make([]byte, n*k)
			for i := range b {
				b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)]
			}
			if u.nix[string(b)] == 0 {
				u.names = append(u.names, string(b))
				u.nix[string(b)] = len(u.names)
				break
			}
		}
	}
	for i, n := range cl {
		// The content itself is the hash.
		b := make([]byte, n*k-4)
		r.Read(b)
		b[0] = byte(i)
		x, err := dag.NewRawNodeWPrefix(b, cid.V1Builder{Codec: cid.Raw, MhType: mh.IDENTITY})
		must(err)
		if x.Cid().ByteLen() != n*k {
			panic(harnessError("genSizes"))
		}
		u.nodes = append(u.nodes, x)
		u.cix[x.Cid().KeyString()] = len(u.nodes)
		s.Put(x)
	}
	return u
}

func (u *universe) describe() ([]M, []M) {
	var ns, ds []M
	for _, n := range u.names {
		ns = append(ns, M{"len": len(n), "h": hashBitsOf(n)})
	}
	for _, n := range u.nodes {
		sz, err := n.Size()
		must(err)
		ds = append(ds, M{"clen": n.Cid().ByteLen(), "ts": clampU(sz)})
	}
	return ns, ds
}

// entry gives [name, node, size] of a link, by number; 0 if unknown.
func (u *universe) entry(l *ipld.Link) []int {
	if l == nil {
		return []int{0, 0, 0}
	}
	return []int{u.nix[l.Name], u.cix[l.Cid.KeyString()], clampU(l.Size)}
}

func (u *universe) idOf(l *ipld.Link) (int, int) {
	return u.cix[l.Cid.KeyString()], clampU(l.Size)
}

func dirErr(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, os.ErrNotExist):
		return "notexist"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "ctx"
	}
	return "other"
}

// dirTree projects the node of a directory, basic or sharded.
func dirTree(s *Store, u *universe, n ipld.Node) M {
	nd, ok := n.(*dag.ProtoNode)
	if !ok {
		return M{"k": "bad"}
	}
	// Decoded again from its encoding: it is what the others get.
	x, err := decodeNode(nd.Cid(), nd.RawData())
	if err != nil {
		return M{"k": "bad"}
	}
	nd = x.(*dag.ProtoNode)
	var d pb.Data
	if err := proto.Unmarshal(nd.Data(), &d); err != nil {
		return M{"k": "bad"}
	}
	switch d.GetType() {
	case pb.Data_Directory:
		es := [][]int{}
		for _, l := range nd.Links() {
			es = append(es, u.entry(l))
		}
		return M{"k": "dir", "links": es, "p": pfx(nd.Cid())}
	case pb.Data_HAMTShard:
		return shardTree(s, nd, func(l *ipld.Link) (int, int) { return u.idOf(l) }, func(n string) int { return u.nix[n] })
	}
	return M{"k": "bad"}
}

// dirAPI is what both ways to use a directory offer.
type dirAPI interface {
	add(ctx context.Context, name string, nd ipld.Node) (old *ipld.Link, hasOld bool, err error)
	remove(ctx context.Context, name string) (old *ipld.Link, hasOld bool, err error)
	find(ctx context.Context, name string) (c cid.Cid, size int, err error)
	links(ctx context.Context) ([]*ipld.Link, error)
	each(ctx context.Context, f func(*ipld.Link) error) error
	enum(ctx context.Context) <-chan ft.LinkResult
	node() (ipld.Node, error)
	kind() string
	builder() cid.Builder
	setBuilder(b cid.Builder)
}

type dynDir struct{ d uio.Directory }

func (d dynDir) add(ctx context.Context, name string, nd ipld.Node) (*ipld.Link, bool, error) {
	return nil, false, d.d.AddChild(ctx, name, nd)
}
func (d dynDir) remove(ctx context.Context, name string) (*ipld.Link, bool, error) {
	return nil, false, d.d.RemoveChild(ctx, name)
}
func (d dynDir) find(ctx context.Context, name string) (cid.Cid, int, error) {
	n, err := d.d.Find(ctx, name)
	if err != nil {
		return cid.Undef, -1, err
	}
	return n.Cid(), -1, nil
}
func (d dynDir) links(ctx context.Context) ([]*ipld.Link, error) { return d.d.Links(ctx) }
func (d dynDir) each(ctx context.Context, f func(*ipld.Link) error) error {
	return d.d.ForEachLink(ctx, f)
}
func (d dynDir) enum(ctx context.Context) <-chan ft.LinkResult { return d.d.EnumLinksAsync(ctx) }
func (d dynDir) node() (ipld.Node, error)                      { return d.d.GetNode() }
func (d dynDir) builder() cid.Builder                          { return d.d.GetCidBuilder() }
func (d dynDir) kind() string {
	x := d.d
	if dd, ok := x.(*uio.DynamicDirectory); ok {
		x = dd.Directory
	}
	switch x.(type) {
	case *uio.HAMTDirectory:
		return "hamt"
	case *uio.BasicDirectory:
		return "basic"
	}
	return "?"
}

func (d dynDir) setBuilder(b cid.Builder)   { d.d.SetCidBuilder(b) }
func (d shardDir) setBuilder(b cid.Builder) { d.s.SetCidBuilder(b) }

type shardDir struct {
	s  *hamt.Shard
	r  *rand.Rand
	st *Store
	lk map[cid.Cid]*ipld.Link
}

func (d shardDir) add(ctx context.Context, name string, nd ipld.Node) (*ipld.Link, bool, error) {
	switch d.r.Intn(3) {
	case 0:
		return nil, false, d.s.Set(ctx, name, nd)
	case 1:
		// The link remains ours: it may be used again, for another name.
		l := d.lk[nd.Cid()]
		if l == nil {
			var err error
			l, err = ipld.MakeLink(nd)
			must(err)
			l.Name = []string{"", name, "zz"}[d.r.Intn(3)]
			d.lk[nd.Cid()] = l
		}
		was := *l
		err := d.s.SetLink(ctx, name, l)
		if *l != was {
			panic("the link that was given to SetLink has changed")
		}
		return nil, false, err
	}
	old, err := d.s.Swap(ctx, name, nd)
	return old, true, err
}
func (d shardDir) remove(ctx context.Context, name string) (*ipld.Link, bool, error) {
	if d.r.Intn(2) == 0 {
		return nil, false, d.s.Remove(ctx, name)
	}
	old, err := d.s.Take(ctx, name)
	return old, true, err
}
func (d shardDir) find(ctx context.Context, name string) (cid.Cid, int, error) {
	l, err := d.s.Find(ctx, name)
	if err != nil {
		return cid.Undef, -1, err
	}
	return l.Cid, clampU(l.Size), nil
}
func (d shardDir) links(ctx context.Context) ([]*ipld.Link, error) { return d.s.EnumLinks(ctx) }
func (d shardDir) each(ctx context.Context, f func(*ipld.Link) error) error {
	return d.s.ForEachLink(ctx, f)
}
func (d shardDir) enum(ctx context.Context) <-chan ft.LinkResult { return d.s.EnumLinksAsync(ctx) }
func (d shardDir) kind() string                                  { return "hamt" }
func (d shardDir) builder() cid.Builder                          { return d.s.CidBuilder() }

// node, or a link to it which says the same.
func (d shardDir) node() (ipld.Node, error) {
	if d.r.Intn(3) > 0 {
		return d.s.Node()
	}
	l, err := d.s.Link()
	if err != nil {
		return nil, err
	}
	nd, ok := d.st.load(l.Cid)
	if !ok {
		return nil, errBadLink
	}
	if l.Size != treeSizes(d.st, nd) {
		return nil, errBadLink
	}
	return nd, nil
}

var errBadLink = errors.New("the link of the shard leads to no block, or its size is wrong")

type dirOp struct {
	op   string
	name int
	node int
}

func parseDirOp(raw json.RawMessage) dirOp {
	var a []interface{}
	must(json.Unmarshal(raw, &a))
	o := dirOp{op: a[0].(string)}
	if len(a) > 1 {
		o.name = int(a[1].(float64))
	}
	if len(a) > 2 {
		o.node = int(a[2].(float64))
	}
	return o
}

var errCallback = errors.New("callback")

func scenDir(c *Case, api string, faults bool) {
	r := c.R
	s := NewStore()
	gen := genOps != nil
	lg := []int{3, 3, 3, 4, 5, 6, 7, 8, 9, 10}[r.Intn(10)]
	nNames, nNodes := 2+r.Intn(10), 2+r.Intn(4)
	large := !gen && r.Intn(25) == 0
	if large {
		nNames = 40 + r.Intn(60)
	}
	collide := r.Intn(12) == 0
	empty := r.Intn(30) == 0
	var u *universe
	scale := 0
	if gen {
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		lg = []int{3, 3, 4, 8}[(c.N+genVariant)%4]
		if string(t[0]) == `"S"` {
			// The lengths of names and CIDs come with the history.
			var nl, cl []int
			must(json.Unmarshal(t[1], &nl))
			must(json.Unmarshal(t[2], &cl))
			nNames, nNodes, scale = len(nl), len(cl), 1+(c.N+genVariant)%5
			u = genSizes(r, s, nl, cl, scale)
		} else {
			// The names' digits come with the history.
			var dg [][]int
			must(json.Unmarshal(t[1], &dg))
			nNames = len(dg)
			u = mkUniverse(r, s, nNames, nNodes, lg, false, false)
			u.rename(genNames(r, dg, lg))
		}
	} else {
		u = mkUniverse(r, s, nNames, nNodes, lg, collide, empty)
	}
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	oldT, oldW := uio.HAMTShardingSize, uio.DefaultShardWidth
	defer func() { uio.HAMTShardingSize, uio.DefaultShardWidth = oldT, oldW }()
	uio.DefaultShardWidth = 1 << uint(lg)
	esize := func(n, x int) int { return len(u.names[n]) + u.nodes[x].Cid().ByteLen() }
	pickT := func() int {
		if r.Intn(8) == 0 {
			return 0
		}
		if r.Intn(10) == 0 {
			return 1 << 20
		}
		t := 0
		k := 1 + r.Intn(nNames)
		if r.Intn(3) > 0 {
			k = 1 + r.Intn(4)
		}
		if faults && r.Intn(2) == 0 {
			k = 1
		}
		for _, i := range r.Perm(nNames)[:minI(k, nNames)] {
			t += esize(i, r.Intn(nNodes))
		}
		return maxI(1, t+r.Intn(5)-2)
	}
	uio.HAMTShardingSize = pickT()
	if scale > 0 {
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		uio.HAMTShardingSize = scale * genInt(t[3])
	}
	ns, ds := u.describe()
	var d dirAPI
	if api == "dir" {
		x := uio.NewDirectory(s)
		x.SetCidBuilder(cc.b)
		d = dynDir{x}
	} else {
		x, err := hamt.NewShard(s, uio.DefaultShardWidth)
		must(err)
		x.SetCidBuilder(cc.b)
		d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
	}
	c.kind = api + kindN(nNames) + kindN(lg)
	c.Emit("Dir", M{"names": ns, "nodes": ds, "T": uio.HAMTShardingSize, "lg": lg, "ver": cc.ver, "mh": cc.mh, "kind": d.kind(), "api": api})

	steps := 6 + r.Intn(30)
	if large {
		steps = 80 + r.Intn(150)
	}
	if gen {
		steps = len(genOps[c.N]) - 1
	}
	var retry *dirOp
	shardsOf := func() map[string]bool {
		set := map[string]bool{}
		var ks []string
		for k := range s.blocks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b := s.blocks[k]
			var d pb.Data
			id, err := cid.Cast([]byte(k))
			must(err)
			if id.Prefix().Codec != cid.DagProtobuf {
				continue
			}
			n, err := dag.DecodeProtobuf(b)
			if err == nil && proto.Unmarshal(n.Data(), &d) == nil && d.GetType() == pb.Data_HAMTShard && r.Intn(3) == 0 {
				set[k] = true
			}
		}
		return set
	}
	cur := map[int]bool{} // names thought to be there, only to choose well
	known := func(n int) int {
		var ks []int
		for n := range cur {
			ks = append(ks, n)
		}
		if len(ks) == 0 {
			return n
		}
		sort.Ints(ks)
		return ks[r.Intn(len(ks))]
	}
	growing := true
	for i := 0; i < steps; i++ {
		var o dirOp
		if gen {
			o = parseDirOp(genOps[c.N][i+1])
			o.name--
			if o.op != "SetT" {
				o.name %= nNames
			}
			o.node = (o.node - 1) % nNodes
			if o.name < 0 {
				o.name = 0
			}
			if o.node < 0 {
				o.node = 0
			}
		} else if retry != nil {
			o = *retry
			retry = nil
		} else {
			if r.Intn(12) == 0 {
				growing = !growing
			}
			k := r.Intn(100)
			if faults && k < 20 {
				// More of what has to fetch shards.
				k = []int{60, 70, 75, 80, 95, 95, 95}[r.Intn(7)]
			}
			o.name, o.node = r.Intn(nNames), r.Intn(nNodes)
			switch {
			case k < 58:
				o.op = "Add"
				if growing == (r.Intn(6) == 0) {
					o.op = "Remove"
				}
				if o.op == "Remove" && r.Intn(8) > 0 {
					o.name = known(o.name)
				}
			case k < 68:
				o.op = "Find"
				if r.Intn(2) == 0 {
					o.name = known(o.name)
				}
			case k < 73:
				o.op = "Links"
			case k < 78:
				o.op = "Each"
			case k < 83:
				o.op = "Enum"
			case k < 91:
				o.op = "Node"
			case k < 98:
				o.op = "Reload"
			default:
				o.op = "SetT"
			}
			if o.op == "SetT" && r.Intn(2) == 0 {
				o.op = []string{"SetW", "SetB"}[r.Intn(2)]
			}
			if api != "dir" && (o.op == "SetT" || o.op == "SetW") {
				o.op = "SetB"
			}
			if large && (o.op == "Links" || o.op == "Each" || o.op == "Enum" || o.op == "Node" || o.op == "Reload") && r.Intn(3) > 0 {
				o.op = "Add"
			}
		}
		ctx := bgctx
		cancelled := false
		set := o.op == "SetT" || o.op == "SetW" || o.op == "SetB"
		if faults && !set {
			switch r.Intn(7) {
			case 0:
				s.failNth(0, 1+r.Intn(4))
			case 1:
				s.failNth(1+r.Intn(3), 0)
			case 2:
				s.failSome(shardsOf())
			case 3:
				x, cancel := context.WithCancel(ctx)
				cancel()
				ctx, cancelled = x, true
			}
		}
		f0, af0, cf0 := s.nFaults(), s.addFails, s.ctxFails
		ev := M{"op": o.op, "name": o.name + 1, "node": o.node + 1}
		if set {
			ev["name"] = 1
		}
		var err error
		res := ""
		switch o.op {
		case "Add":
			var old *ipld.Link
			var has bool
			res = Do(func() { old, has, err = d.add(ctx, u.names[o.name], u.nodes[o.node]) })
			ev["hasold"], ev["old"] = has, 0
			if old != nil {
				ev["old"] = u.cix[old.Cid.KeyString()]
			}
			if err == nil {
				cur[o.name] = true
			}
		case "Remove":
			var old *ipld.Link
			var has bool
			res = Do(func() { old, has, err = d.remove(ctx, u.names[o.name]) })
			ev["hasold"], ev["old"] = has, 0
			if old != nil {
				ev["old"] = u.cix[old.Cid.KeyString()]
			}
			if err == nil {
				delete(cur, o.name)
			}
		case "Find":
			var k cid.Cid
			res = Do(func() { k, ev["gsize"], err = d.find(ctx, u.names[o.name]) })
			ev["got"] = 0
			if err == nil && res == "ok" {
				ev["got"] = u.cix[k.KeyString()]
			}
		case "Links":
			var ls []*ipld.Link
			res = Do(func() { ls, err = d.links(ctx) })
			ev["list"] = u.entries(ls)
		case "Each":
			var ls [][]int
			stop := -1
			if r.Intn(5) == 0 {
				stop = r.Intn(4)
			}
			res = Do(func() {
				err = d.each(ctx, func(l *ipld.Link) error {
					if len(ls) == stop {
						return errCallback
					}
					ls = append(ls, u.entry(l))
					return nil
				})
			})
			if ls == nil {
				ls = [][]int{}
			}
			ev["list"], ev["stop"], ev["cb"] = ls, stop, err == errCallback
		case "Enum":
			ls := [][]int{}
			errs := 0
			res = Do(func() {
				for lr := range d.enum(ctx) {
					if lr.Err != nil {
						errs++
						err = lr.Err
					} else {
						ls = append(ls, u.entry(lr.Link))
					}
				}
			})
			ev["list"], ev["errs"] = ls, errs
		case "Node", "Reload":
			var nd ipld.Node
			res = Do(func() { nd, err = d.node() })
			s.heal()
			ev["tree"], ev["root"], ev["stored"] = M{"k": "none"}, 0, false
			if res == "ok" && err == nil {
				ev["tree"] = dirTree(s, u, nd)
				ev["root"] = s.ID(nd.Cid())
				_, in := s.Raw(nd.Cid())
				ev["stored"] = in && allStored(s, nd.Cid())
				if isShard(nd) {
					s.Handed(nd.Cid())
				}
			}
			if o.op == "Reload" && res == "ok" && err == nil {
				if r.Intn(3) > 0 {
					// From its bytes, as from another process.
					nd, err = decodeNode(nd.Cid(), nd.RawData())
					must(err)
				}
				var d2 dirAPI
				res = Do(func() {
					if api == "dir" {
						var x uio.Directory
						x, err = uio.NewDirectoryFromNode(s, nd)
						d2 = dynDir{x}
					} else {
						var x *hamt.Shard
						x, err = hamt.NewHamtFromDag(s, nd)
						d2 = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
					}
				})
				if res == "ok" && err == nil {
					d = d2
				}
			}
		case "SetT":
			if scale > 0 {
				uio.HAMTShardingSize = scale * (o.name + 1)
			} else {
				uio.HAMTShardingSize = pickT()
			}
			ev["T"] = uio.HAMTShardingSize
			res = "ok"
		case "SetW":
			x := []int{3, 4, 5, 8}[r.Intn(4)]
			uio.DefaultShardWidth = 1 << uint(x)
			if !gen && r.Intn(3) == 0 {
				// No width a shard can have.
				x, uio.DefaultShardWidth = 0, []int{0, 1, 2, 4, 6, 12, 24, 250, 1000, 1032, 2048, 4096, -1, -8, -256}[r.Intn(15)]
			}
			ev["lg"] = x
			res = "ok"
		case "SetB":
			// (nil leaves the CID of an encoded ProtoNode as it was.)
			b := cidCfgs[1+r.Intn(len(cidCfgs)-1)]
			ev["p"] = []int{b.ver, b.mh, int(cid.DagProtobuf)}
			res = Do(func() { d.setBuilder(b.b) })
		}
		s.heal()
		ev["res"], ev["err"] = res, dirErr(err)
		ev["fault"] = s.nFaults() > f0 || s.ctxFails > cf0 || cancelled
		ev["addfault"] = s.addFails > af0
		ev["cancelled"] = cancelled
		ev["kind"], ev["bp"] = d.kind(), builderPfx(d.builder())
		c.Emit("Op", ev)
		if res == "hang" {
			c.hung = true
			return
		}
		if faults && err != nil && ev["fault"].(bool) && r.Intn(2) == 0 {
			x := o
			retry = &x
		}
	}
	// The end of the history: everything is looked at.
	var nd ipld.Node
	var err error
	res := Do(func() { nd, err = d.node() })
	ev := M{"op": "Node", "name": 1, "node": 1, "res": res, "err": dirErr(err), "fault": false, "addfault": false, "cancelled": false, "kind": d.kind(), "bp": builderPfx(d.builder()),
		"tree": M{"k": "none"}, "root": 0, "stored": false}
	if res == "ok" && err == nil {
		ev["tree"] = dirTree(s, u, nd)
		ev["root"] = s.ID(nd.Cid())
		_, in := s.Raw(nd.Cid())
		ev["stored"] = in && allStored(s, nd.Cid())
		if isShard(nd) {
			s.Handed(nd.Cid())
		}
	}
	c.Emit("Op", ev)
	var ls []*ipld.Link
	res = Do(func() { ls, err = d.links(bgctx) })
	c.Emit("Op", M{"op": "Links", "name": 1, "node": 1, "res": res, "err": dirErr(err), "fault": false, "addfault": false, "cancelled": false, "kind": d.kind(), "bp": builderPfx(d.builder()),
		"list": u.entries(ls)})
}

// builderPfx is the prefix of what a builder makes.
func builderPfx(b cid.Builder) []interface{} {
	if b == nil {
		b = dag.V0CidPrefix()
	}
	k, err := b.Sum([]byte("x"))
	must(err)
	return pfx(k)
}

func (u *universe) entries(ls []*ipld.Link) [][]int {
	out := [][]int{}
	for _, l := range ls {
		out = append(out, u.entry(l))
	}
	return out
}

func isShard(nd ipld.Node) bool {
	fsn, err := ft.ExtractFSNode(nd)
	return err == nil && fsn.Type() == ft.THAMTShard
}
