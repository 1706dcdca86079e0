package main

import (
	"encoding/json"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() { scenarios["handles"] = scenHandles }

// flat lists the entries of a projected directory: [name, node].
func flat(t M, out [][]int) [][]int {
	switch t["k"] {
	case "dir":
		for _, e := range t["links"].([][]int) {
			out = append(out, e[:2])
		}
	case "shard":
		for _, x := range t["slots"].([]M) {
			if x["k"] == "val" {
				out = append(out, []int{x["name"].(int), x["id"].(int)})
			} else {
				out = flat(x["c"].(M), out)
			}
		}
	default:
		out = append(out, []int{-1, -1})
	}
	return out
}

// scenHandles: several directories on the same nodes.
func scenHandles(c *Case) {
	r := c.R
	s := NewStore()
	gen := genOps != nil
	lg := []int{3, 3, 4, 8}[r.Intn(4)]
	nNames := 3 + r.Intn(8)
	var hist []json.RawMessage
	if gen {
		var t []json.RawMessage
		hist = genOps[c.N]
		must(json.Unmarshal(hist[0], &t))
		nNames = genInt(t[1])
		lg = []int{3, 4}[(c.N+genVariant)%2]
	}
	u := mkUniverse(r, s, nNames, 3, lg, false, false)
	api := []string{"dir", "hamt"}[r.Intn(2)]
	oldT, oldW := uio.HAMTShardingSize, uio.DefaultShardWidth
	defer func() { uio.HAMTShardingSize, uio.DefaultShardWidth = oldT, oldW }()
	uio.DefaultShardWidth = 1 << uint(lg)
	uio.HAMTShardingSize = []int{0, 0, 1 + r.Intn(400)}[r.Intn(3)]
	cc := cidCfgs[r.Intn(len(cidCfgs))]

	// The first node: a basic directory, or a sharded one.
	var base ipld.Node
	var err error
	if api == "dir" && r.Intn(2) == 0 {
		pn := dag.NodeWithData([]byte{8, 1})
		pn.SetCidBuilder(cc.b)
		for i := 0; i < nNames; i++ {
			if i < nNames-1 {
				l, e := ipld.MakeLink(u.nodes[0])
				must(e)
				must(pn.AddRawLink(u.names[i], l))
			}
		}
		s.Put(pn)
		base = pn
	} else {
		x, e := hamt.NewShard(s, 1<<uint(lg))
		must(e)
		x.SetCidBuilder(cc.b)
		for i := 0; i < nNames-1; i++ {
			if err = x.Set(bgctx, u.names[i], u.nodes[0]); err != nil {
				panic(harnessError("first directory"))
			}
		}
		base, err = x.Node()
		if err != nil {
			panic(harnessError("first directory"))
		}
	}
	if r.Intn(2) == 0 {
		base, err = decodeNode(base.Cid(), base.RawData())
		must(err)
	}
	now := func(nd ipld.Node) (int, [][]int) {
		pn, ok := nd.(*dag.ProtoNode)
		if !ok {
			return 0, [][]int{{-1, -1}}
		}
		cp := dag.NodeWithData(append([]byte(nil), pn.Data()...))
		cp.SetCidBuilder(pn.CidBuilder())
		for _, l := range pn.Links() {
			must(cp.AddRawLink(l.Name, l))
		}
		id := s.ID(cp.Cid())
		if !cp.Cid().Equals(nd.Cid()) {
			id = -1
		}
		return id, flat(dirTree(s, u, cp), [][]int{})
	}
	c.kind = api + kindN(nNames)
	id, list := now(base)
	c.Emit("Base", M{"id": id, "list": list})
	nodes := []ipld.Node{base}
	var hs []dirAPI

	load := func(i int, own bool) bool {
		nd := nodes[i]
		if own {
			nd, err = decodeNode(nd.Cid(), nd.RawData())
			must(err)
		}
		var d dirAPI
		res := Do(func() {
			if api == "dir" {
				var x uio.Directory
				x, err = uio.NewDirectoryFromNode(s, nd)
				d = dynDir{x}
			} else {
				var x *hamt.Shard
				x, err = hamt.NewHamtFromDag(s, nd)
				d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
			}
		})
		c.Emit("Load", M{"n": i + 1, "names": nNames, "res": res, "err": dirErr(err)})
		if res != "ok" || err != nil {
			return false
		}
		hs = append(hs, d)
		return true
	}
	edit := func(h, name, x int) {
		var err error
		res := Do(func() {
			if x == 0 {
				_, _, err = hs[h].remove(bgctx, u.names[name])
			} else {
				_, _, err = hs[h].add(bgctx, u.names[name], u.nodes[x-1])
			}
		})
		c.Emit("Edit", M{"h": h + 1, "name": name + 1, "x": x, "res": res, "err": dirErr(err)})
	}
	take := func(h int) {
		var nd ipld.Node
		var err error
		res := Do(func() { nd, err = hs[h].node() })
		ev := M{"h": h + 1, "res": res, "err": dirErr(err), "id": 0, "list": [][]int{}}
		if res == "ok" && err == nil {
			if hs[h].kind() == "basic" {
				// It is the node that the directory works on.
				nd = nd.Copy()
				s.Put(nd)
			}
			ev["id"], ev["list"] = now(nd)
		}
		c.Emit("Take", ev)
		if res == "ok" && err == nil {
			nodes = append(nodes, nd)
		}
	}
	look := func(h int) {
		var ls []*ipld.Link
		var err error
		list := [][]int{}
		res := Do(func() {
			switch r.Intn(3) {
			case 0:
				ls, err = hs[h].links(bgctx)
			case 1:
				for lr := range hs[h].enum(bgctx) {
					if lr.Err != nil {
						err = lr.Err
					} else {
						ls = append(ls, lr.Link)
					}
				}
			default:
				err = hs[h].each(bgctx, func(l *ipld.Link) error {
					x := *l
					ls = append(ls, &x)
					return nil
				})
			}
		})
		for _, l := range ls {
			list = append(list, u.entry(l)[:2])
		}
		c.Emit("Look", M{"h": h + 1, "res": res, "err": dirErr(err), "list": list})
	}
	check := func(i int) {
		id, list := now(nodes[i])
		c.Emit("Check", M{"n": i + 1, "id": id, "list": list})
	}

	if gen {
		for k := 0; k < 2; k++ {
			if !load(0, false) {
				return
			}
			if genVariant%2 == 1 {
				look(k) // everything is loaded
			}
		}
		for _, raw := range hist[1:] {
			var a []interface{}
			must(json.Unmarshal(raw, &a))
			x := 0
			if len(a) > 3 {
				x = int(a[3].(float64))
			}
			h := int(a[1].(float64)) - 1
			edit(h, int(a[2].(float64))-1, x)
			if genVariant >= 2 {
				take(h)
			}
		}
	} else {
		n := 8 + r.Intn(20)
		for i := 0; i < n; i++ {
			k := r.Intn(20)
			switch {
			case len(hs) == 0 || k < 2 && len(hs) < 4:
				if !load(r.Intn(len(nodes)), r.Intn(3) == 0) {
					return
				}
			case k < 14:
				edit(r.Intn(len(hs)), r.Intn(nNames), []int{0, 0, 1, 2, 3}[r.Intn(5)])
			case k < 16:
				take(r.Intn(len(hs)))
			case k < 18:
				look(r.Intn(len(hs)))
			default:
				check(r.Intn(len(nodes)))
			}
		}
	}
	for i := range hs {
		look(i)
	}
	for i := range nodes {
		check(i)
	}
}
