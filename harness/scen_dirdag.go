package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"
)

// Sharded directories of any shape, some of whose shards are missing or
// aren't shards.

func init() { scenarios["dirdag"] = scenDirDag }

// dTree is a shard as DirDag.tla has it.
type dTree struct {
	K     string  `json:"k"`
	Lg    int     `json:"lg"`
	ID    int     `json:"id"`
	Slots []dSlot `json:"slots"`
}
type dSlot struct {
	B int    `json:"b"`
	K string `json:"k"`
	N int    `json:"n"`
	V int    `json:"v"`
	C dTree  `json:"c"`
}

var noTree = dTree{K: "none", Slots: []dSlot{}}

// slotShard encodes a shard by hand.
func slotShard(lg int, bits []int, ls []*ipld.Link, cc cidCfg, pad int) *dag.ProtoNode {
	w := 1 << uint(lg)
	bf := make([]byte, w/8)
	for _, b := range bits {
		bf[len(bf)-1-b/8] |= 1 << uint(b%8)
	}
	for pad == 0 && len(bf) > 0 && bf[0] == 0 {
		bf = bf[1:] // as it is commonly stored
	}
	t := pb.Data_HAMTShard
	d := pb.Data{Type: &t, Data: bf, HashType: proto.Uint64(0x22), Fanout: proto.Uint64(uint64(w))}
	b, err := proto.Marshal(&d)
	must(err)
	n := dag.NodeWithData(b)
	n.SetCidBuilder(cc.b)
	for _, l := range ls {
		must(n.AddRawLink(l.Name, l))
	}
	return n
}

func padOf(lg int) int { return len(fmt.Sprintf("%X", 1<<uint(lg)-1)) }

func scenDirDag(c *Case) {
	r := c.R
	defer func(a int) { uio.HAMTShardingSize = a }(uio.HAMTShardingSize)
	uio.HAMTShardingSize = 0
	s := NewStore()
	gen := genOps != nil
	lg0 := []int{3, 3, 3, 4, 5, 8, 10}[r.Intn(7)]
	mixed := r.Intn(4) == 0
	var gt dTree
	var names []string
	if gen {
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		var dg [][]int
		must(json.Unmarshal(t[1], &dg))
		must(json.Unmarshal(t[2], &gt))
		lg0 = []int{3, 4, 5, 8, 10}[(c.N+genVariant)%5]
		names = genNames(r, dg, lg0)
		mixed = false
	} else {
		names = mkNames(r, 3+r.Intn(8), lg0, r.Intn(4) == 0, false)
		if r.Intn(8) == 0 {
			// Two that share all but the last bits, or all.
			h := hash64(names[0])
			if r.Intn(2) == 0 {
				h ^= 1 << uint(r.Intn(12))
			}
			names = append(names, nameWithHash(h, r))
		}
	}
	ix := map[string]int{}
	hs := [][]int{}
	for i, n := range names {
		if ix[n] > 0 {
			return
		}
		ix[n] = i + 1
		hs = append(hs, hashBitsOf(n))
	}
	cc := cidCfgs[r.Intn(len(cidCfgs))]

	// Values are numbers of nodes with the sizes their links give them.
	var nodes []ipld.Node
	vix := map[string]int{}
	fresh := func(store bool) int {
		var n ipld.Node
		b := []byte(fmt.Sprintf("%d/%d", len(nodes), r.Int63()))
		if r.Intn(2) == 0 {
			n = dag.NewRawNode(b)
		} else {
			n = dag.NodeWithData(ft.FilePBData(b, uint64(len(b))))
		}
		if store {
			s.Put(n)
		}
		nodes = append(nodes, n)
		vix[n.Cid().KeyString()] = len(nodes)
		return len(nodes)
	}
	sizes := map[int]int{}
	valOf := func(c cid.Cid, size int) int {
		v := vix[c.KeyString()]
		if v == 0 || size >= 0 && sizes[v] != size {
			return 0
		}
		return v
	}
	brokenIDs := map[string]int{}
	miss := &badDag{r: r, s: s}
	oddity := []int{0, 0, 2, 5}[r.Intn(4)]
	odd := func(k int) bool { return oddity > 0 && r.Intn(k*5/oddity) == 0 }
	broken := func(lg int) (dTree, cid.Cid, uint64) {
		var k cid.Cid
		x := r.Intn(8)
		put := func(n ipld.Node) { s.Put(n); k = n.Cid() }
		one := []*ipld.Link{{Name: fmt.Sprintf("%0*Xx", padOf(lg), 1), Cid: dag.NewRawNode([]byte{byte(r.Intn(250))}).Cid()}}
		switch x {
		case 0, 1:
			k = miss.missing()
		case 2:
			put(dag.NewRawNode([]byte(fmt.Sprint(r.Int63()))))
		case 3: // not UnixFS
			put(dag.NodeWithData([]byte{0xff, 0xff, byte(r.Intn(256)), byte(r.Intn(256))}))
		case 4: // another type
			put(dag.NodeWithData(ft.FilePBData([]byte(fmt.Sprint(r.Int63())), 3)))
		case 5: // a bit for no link
			put(slotShard(lg, []int{1, 2 + r.Intn(6)}, one, cc, 0))
		case 6: // no bit for a link
			put(slotShard(lg, nil, one, cc, 0))
		case 7: // width or hash function
			n := slotShard(lg, []int{1}, one, cc, 0)
			var d pb.Data
			must(proto.Unmarshal(n.Data(), &d))
			if r.Intn(2) == 0 {
				d.HashType = proto.Uint64([]uint64{0, 0x12, 0x23, 0xb240}[r.Intn(4)])
			} else {
				d.Fanout = proto.Uint64([]uint64{0, 4, 7, 24, 2048, 1 << 40, 1 << 63}[r.Intn(7)])
			}
			b, err := proto.Marshal(&d)
			must(err)
			n.SetData(b)
			put(n)
		}
		id := brokenIDs[k.KeyString()]
		if id == 0 {
			id = len(brokenIDs) + 1
			brokenIDs[k.KeyString()] = id
		}
		return dTree{K: "broken", ID: id, Slots: []dSlot{}}, k, uint64(r.Intn(100))
	}
	digit := func(n, used, lg int) int {
		x := 0
		for _, b := range hs[n-1][used : used+lg] {
			x = 2*x + b
		}
		return x
	}
	store := func(lg int, sl []dSlot, kids map[int]cid.Cid, ts map[int]uint64) (dTree, *dag.ProtoNode) {
		var bits []int
		var ls []*ipld.Link
		for _, x := range sl {
			bits = append(bits, x.B)
			l := &ipld.Link{Name: fmt.Sprintf("%0*X", padOf(lg), x.B)}
			switch x.K {
			case "val":
				l.Name += names[x.N-1]
				l.Cid, l.Size = nodes[x.V-1].Cid(), uint64(sizes[x.V])
			case "inv":
				l.Name = l.Name[:r.Intn(len(l.Name))]
				if r.Intn(2) == 0 {
					l.Name = ""
				}
				if x.B > 0 {
					l.Name = "" // to remain the first
				}
				l.Cid = miss.missing()
			case "sub":
				l.Cid, l.Size = kids[x.B], ts[x.B]
			}
			ls = append(ls, l)
		}
		n := slotShard(lg, bits, ls, cc, r.Intn(2))
		s.Put(n)
		return dTree{K: "shard", Lg: lg, Slots: sl}, n
	}
	total := 0
	var tree func(depth, lg, used int, way int) (dTree, *dag.ProtoNode)
	tree = func(depth, lg, used int, way int) (dTree, *dag.ProtoNode) {
		w := 1 << uint(lg)
		at := map[int]int{} // the bit of a name
		// Mostly there is something where names lead.
		for n := 1; n <= len(names); n++ {
			if used+lg <= 64 && r.Intn(3) > 0 {
				at[digit(n, used, lg)] = n
			}
		}
		if way > 0 && used+lg <= 64 {
			at[digit(way, used, lg)] = way
		}
		for k := r.Intn(3); k > 0; k-- {
			if b := r.Intn(w); at[b] == 0 {
				at[b] = -1
			}
		}
		if used > 0 && r.Intn(8) == 0 {
			at = map[int]int{}
		}
		bits := []int{}
		for b := range at {
			bits = append(bits, b)
		}
		sort.Ints(bits)
		if used > 0 && r.Intn(3) == 0 && len(bits) > 2 {
			bits = bits[:1+r.Intn(2)]
		}
		sl := []dSlot{}
		kids, ts := map[int]cid.Cid{}, map[int]uint64{}
		for i, b := range bits {
			total++
			x := dSlot{B: b, C: noTree}
			n := at[b]
			k := r.Intn(10)
			deep := way > 0 && n == way && depth > 0
			switch {
			case i == 0 && odd(12):
				x.K = "inv"
			case odd(9) && !deep:
				x.K = "sub"
				x.C, kids[b], ts[b] = broken(lg)
			case (k < 4 || deep) && depth > 0 && total < 40:
				x.K = "sub"
				l2 := lg
				if mixed && r.Intn(2) == 0 {
					l2 = []int{3, 4, 5, 6, 7, 8, 9, 10}[r.Intn(8)]
				}
				wy := 0
				if deep || n > 0 && r.Intn(8) == 0 {
					wy = n
				}
				t, nd := tree(depth-1, l2, used+lg, wy)
				x.C, kids[b], ts[b] = t, nd.Cid(), treeSizes(s, nd)
			default:
				x.K = "val"
				if n < 0 || r.Intn(6) == 0 {
					n = 1 + r.Intn(len(names))
				}
				x.N, x.V = n, fresh(true)
				sizes[x.V] = r.Intn(1000)
			}
			sl = append(sl, x)
		}
		return store(lg, sl, kids, ts)
	}
	var genTree func(t dTree) (dTree, *dag.ProtoNode)
	perm := func(b int) int { return b }
	genTree = func(t dTree) (dTree, *dag.ProtoNode) {
		kids, ts := map[int]cid.Cid{}, map[int]uint64{}
		sl := []dSlot{}
		for _, x := range t.Slots {
			x.B, x.C.Slots = perm(x.B), append([]dSlot{}, x.C.Slots...)
			switch {
			case x.K == "val":
				x.V = fresh(true)
				sizes[x.V] = r.Intn(1000)
			case x.C.K == "broken":
				x.C, kids[x.B], ts[x.B] = broken(lg0)
			default:
				y, nd := genTree(x.C)
				x.C, kids[x.B], ts[x.B] = y, nd.Cid(), treeSizes(s, nd)
			}
			sl = append(sl, x)
		}
		sort.Slice(sl, func(i, j int) bool { return sl[i].B < sl[j].B })
		for i := range sl {
			if sl[i].K == "val" {
				sl[i].C = noTree
			}
		}
		return store(lg0, sl, kids, ts)
	}
	var t0 dTree
	var root *dag.ProtoNode
	if gen {
		// The digits of the history stand for those of the names.
		m := map[int]int{}
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		var dg [][]int
		must(json.Unmarshal(t[1], &dg))
		for n, ds := range dg {
			for l, d := range ds {
				m[d] = digit(n+1, l*lg0, lg0)
			}
		}
		perm = func(b int) int {
			if x, ok := m[b]; ok {
				return x
			}
			return b
		}
		t0, root = genTree(gt)
	} else {
		depth, way := 1+r.Intn(3), 0
		if r.Intn(6) == 0 {
			depth, way = 22, 1+r.Intn(len(names))
		}
		t0, root = tree(depth, lg0, 0, way)
	}
	var read func(n ipld.Node, id int) dTree
	read = func(n ipld.Node, id int) dTree {
		pn, ok := n.(*dag.ProtoNode)
		var d pb.Data
		if !ok || proto.Unmarshal(pn.Data(), &d) != nil || d.GetType() != pb.Data_HAMTShard || d.GetHashType() != 0x22 {
			return dTree{K: "bad", Slots: []dSlot{}}
		}
		lg := 0
		for 1<<uint(lg) < int(d.GetFanout()) && lg < 11 {
			lg++
		}
		out := dTree{K: "shard", Lg: lg, Slots: []dSlot{}}
		var bits []int
		bf := d.GetData()
		for i := 0; i < 8*len(bf); i++ {
			if bf[len(bf)-1-i/8]>>uint(i%8)&1 == 1 {
				bits = append(bits, i)
			}
		}
		pad := padOf(lg)
		for i, l := range pn.Links() {
			if i >= len(bits) {
				return dTree{K: "bad", Slots: []dSlot{}}
			}
			x := dSlot{B: bits[i], K: "val", C: noTree}
			switch {
			case len(l.Name) < pad:
				x.K = "inv"
			case l.Name[:pad] != fmt.Sprintf("%0*X", pad, bits[i]):
				x.K = "prefix"
			case len(l.Name) == pad:
				x.K = "sub"
				if b := brokenIDs[l.Cid.KeyString()]; b > 0 {
					x.C = dTree{K: "broken", ID: b, Slots: []dSlot{}}
				} else if ch, ok := s.load(l.Cid); ok {
					x.C = read(ch, 0)
				} else {
					x.C = dTree{K: "absent", Slots: []dSlot{}}
				}
			default:
				x.N, x.V = ix[l.Name[pad:]], valOf(l.Cid, clampU(l.Size))
			}
			out.Slots = append(out.Slots, x)
		}
		if len(bits) != len(out.Slots) {
			out.K = "bits"
		}
		return out
	}
	c.kind = kindN(total) + kindN(len(names))
	c.Emit("Dag", M{"h": hs, "tree": t0})

	ctx, cancel := context.WithCancel(bgctx)
	defer cancel()
	api := []string{"dir", "hamt"}[r.Intn(2)]
	var d dirAPI
	open := func(n ipld.Node) {
		var err error
		res := Do(func() {
			if api == "dir" {
				var x uio.Directory
				x, err = uio.NewDirectoryFromNode(s, n)
				d = dynDir{x}
			} else {
				var x *hamt.Shard
				x, err = hamt.NewHamtFromDag(s, n)
				d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
			}
		})
		if err != nil || res != "ok" {
			d = nil
		}
		c.Emit("Open", M{"api": api, "res": res, "err": dirErr(err)})
	}
	var cur ipld.Node = root
	open(root)
	if d == nil {
		return
	}
	es := func(ls []*ipld.Link) [][]int {
		out := [][]int{}
		for _, l := range ls {
			if l == nil {
				out = append(out, []int{0, 0})
				continue
			}
			out = append(out, []int{ix[l.Name], valOf(l.Cid, clampU(l.Size))})
		}
		return out
	}
	steps := 3 + r.Intn(10)
	if gen {
		steps = len(genOps[c.N]) - 1
	}
	edits := r.Intn(3) > 0
	for k := 0; k < steps; k++ {
		op := []string{"Find", "Find", "Find", "Links", "Enum", "Each", "Resolve", "View", "Node"}[r.Intn(9)]
		if edits && r.Intn(2) == 0 {
			op = []string{"Add", "Remove", "Remove"}[r.Intn(3)]
		}
		n := 1 + r.Intn(len(names))
		if gen {
			var a []interface{}
			must(json.Unmarshal(genOps[c.N][k+1], &a))
			op, n = a[0].(string), int(a[1].(float64))
			if op == "List" {
				op = []string{"Links", "Enum", "Each"}[(c.N+genVariant)%3]
			}
		}
		name := names[n-1]
		ev := M{"op": op, "n": n, "v": 0, "old": -1, "es": [][]int{}, "tree": noTree}
		// The entry there was, where the call says.
		was := func(l *ipld.Link, has bool) {
			if has && l == nil {
				ev["old"] = 0
			} else if has {
				ev["old"] = valOf(l.Cid, clampU(l.Size))
				if ev["old"] == 0 {
					ev["old"] = -2
				}
			}
		}
		var err error
		res := "ok"
		errc := dirErr
		switch op {
		case "Add":
			v := fresh(api == "hamt")
			nd := nodes[v-1]
			l, e := ipld.MakeLink(nd)
			must(e)
			sizes[v] = clampU(l.Size)
			ev["v"] = v
			res = Do(func() {
				var old *ipld.Link
				var has bool
				old, has, err = d.add(ctx, name, nd)
				was(old, has)
			})
			s.Put(nd)
		case "Remove":
			res = Do(func() {
				var old *ipld.Link
				var has bool
				old, has, err = d.remove(ctx, name)
				was(old, has)
			})
		case "Find":
			var k cid.Cid
			var size int
			res = Do(func() { k, size, err = d.find(ctx, name) })
			if err == nil && res == "ok" {
				ev["v"] = valOf(k, size)
			}
		case "Resolve":
			var l *ipld.Link
			var rest []string
			errc = resolveErr
			res = Do(func() { l, rest, err = uio.ResolveUnixfsOnce(ctx, s, cur, []string{name, "x"}) })
			if err == nil && res == "ok" && l != nil && len(rest) == 1 {
				ev["v"] = valOf(l.Cid, -1)
			}
		case "Links":
			var ls []*ipld.Link
			res = Do(func() { ls, err = d.links(ctx) })
			ev["es"] = es(ls)
		case "Enum":
			var ls []*ipld.Link
			res = Do(func() {
				for x := range d.enum(ctx) {
					if x.Err != nil {
						err = x.Err
						continue
					}
					ls = append(ls, x.Link)
				}
			})
			if res == "ok" {
				ev["es"] = es(ls)
			}
		case "Each":
			got := [][]int{}
			res = Do(func() {
				err = d.each(ctx, func(l *ipld.Link) error {
					got = append(got, es([]*ipld.Link{l})...)
					return nil
				})
			})
			if res == "ok" {
				ev["es"] = got
			}
		case "View":
			got := [][]int{}
			res = Do(func() {
				var n files.Node
				n, err = unixfile.NewUnixfsFile(ctx, s, cur)
				if err != nil {
					return
				}
				it := n.(files.Directory).Entries()
				for it.Next() {
					f, ok := it.Node().(files.File)
					if !ok {
						got = append(got, []int{ix[it.Name()], 0})
						continue
					}
					v := 0
					b := make([]byte, 200)
					m, _ := f.Read(b)
					for i, x := range nodes {
						if sameContent(x, b[:m]) {
							v = i + 1
						}
					}
					got = append(got, []int{ix[it.Name()], v})
				}
				err = it.Err()
			})
			if res == "ok" {
				ev["es"] = got
			}
		case "Node":
			var nd ipld.Node
			res = Do(func() { nd, err = d.node() })
			if res == "ok" && err == nil {
				ev["tree"] = read(nd, 0)
				if x, ok := s.load(nd.Cid()); !ok {
					ev["tree"] = dTree{K: "absent", Slots: []dSlot{}}
				} else {
					cur = x
				}
			}
		}
		ev["res"], ev["err"] = res, errc(err)
		c.Emit("Do", ev)
		if c.hung = res == "hang"; c.hung {
			return
		}
		if op == "Node" && err == nil && res == "ok" && r.Intn(2) == 0 {
			open(cur)
			if d == nil {
				return
			}
		}
	}
}

// sameContent: the node is a file of a single block with these bytes.
func sameContent(n ipld.Node, b []byte) bool {
	x, err := ft.ReadUnixFSNodeData(n)
	return err == nil && string(x) == string(b)
}
