package main

import (
	"bytes"
	"context"
	"errors"
	"os"
	"sort"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	scenarios["resolve"] = scenResolve
}

func resolveErr(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, os.ErrNotExist), errors.Is(err, dag.ErrLinkNotFound):
		return "notexist"
	case errors.Is(err, context.Canceled):
		return "ctx"
	}
	return "other"
}

// getOnly is all a resolver should need.
type getOnly struct{ s *Store }

func (g getOnly) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) { return g.s.Get(ctx, c) }
func (g getOnly) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	return g.s.GetMany(ctx, cs)
}

func scenResolve(c *Case) {
	r := c.R
	s := NewStore()
	lg := []int{3, 3, 3, 4, 5, 6, 8, 10}[r.Intn(8)]
	n := 1 + r.Intn(20)
	if r.Intn(6) == 0 {
		n = 20 + r.Intn(80)
	}
	collide := r.Intn(10) == 0
	u := mkUniverse(r, s, n, 2+r.Intn(4), lg, false, false)
	if collide {
		// Absent names with the whole hash of a present one, and names that
		// share all but the last bits with it.
		for k := 0; k < 3; k++ {
			h := hash64(u.names[r.Intn(len(u.names))])
			if k == 2 {
				h ^= 1 << uint(r.Intn(64))
			}
			x := nameWithHash(h, r)
			if u.nix[x] == 0 {
				u.names = append(u.names, x)
				u.nix[x] = len(u.names)
			}
		}
	}
	ents := make([]int, len(u.names))
	var ls []*ipld.Link
	density := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		if r.Intn(4) < density {
			x := r.Intn(len(u.nodes))
			sz, err := u.nodes[x].Size()
			must(err)
			ls = append(ls, &ipld.Link{Name: u.names[i], Cid: u.nodes[x].Cid(), Size: sz})
			ents[i] = x + 1
		}
	}
	kind := []string{"hamt", "hamt", "hamt", "basic", "edited"}[r.Intn(5)]
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	var root ipld.Node
	switch kind {
	case "hamt":
		root = handShard(s, ls, lg, 0, cc)
	case "basic":
		sort.SliceStable(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
		root = handDir(s, ls, cc)
	case "edited":
		// As the code itself makes it.
		sh, err := hamt.NewShard(s, 1<<uint(lg))
		must(err)
		sh.SetCidBuilder(cc.b)
		for i, k := range ents {
			if k > 0 {
				must(sh.Set(bgctx, u.names[i], u.nodes[k-1]))
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			i := r.Intn(n)
			if ents[i] > 0 {
				must(sh.Remove(bgctx, u.names[i]))
				ents[i] = 0
			}
		}
		root, err = sh.Node()
		must(err)
	}
	ns, ds := u.describe()
	for i := range ns {
		delete(ns[i], "h")
	}
	// Extra names: never there.
	extra := []string{"", "zz", "0", "00", "07", "FF", "\x00", "a/b"}
	nameOf := func(i int) string {
		if i <= len(u.names) {
			return u.names[i-1]
		}
		return extra[i-len(u.names)-1]
	}
	for i := range extra {
		e := extra[i]
		if u.nix[e] > 0 {
			extra[i] = e + "-none"
		}
		ents = append(ents, 0)
	}
	// Names with the prefixes of the shard's links in front of them.
	pad := len(hexUpper(1<<uint(lg) - 1))
	for k := 0; k < 4; k++ {
		x := u.names[r.Intn(n)]
		d := hexUpper(int(hash64(x) >> uint(64-lg)))
		for len(d) < pad {
			d = "0" + d
		}
		x = d + x
		if k == 3 {
			x = d
		}
		if u.nix[x] == 0 {
			extra = append(extra, x)
			ents = append(ents, 0)
		}
	}
	c.kind = kind + kindN(n) + kindN(lg)
	c.Emit("RDir", M{"nodes": ds, "ents": ents, "kind": kind})
	var shards []cid.Cid
	if kind != "basic" {
		shards = subShards(s, root)
	}
	sizes := make([]uint64, len(u.nodes))
	for i, x := range u.nodes {
		sizes[i], _ = x.Size()
	}
	for t := 4 + r.Intn(12); t > 0; t-- {
		nd, ok := s.load(root.Cid())
		if !ok {
			must(errors.New("no root"))
		}
		if r.Intn(3) == 0 {
			nd = root
		}
		enc0 := append([]byte{}, nd.RawData()...)
		k := r.Intn(4)
		if r.Intn(4) > 0 && k == 0 {
			k = 1
		}
		path := []int{}
		names := []string{}
		for i := 0; i < k; i++ {
			x := 1 + r.Intn(len(u.names)+len(extra))
			if r.Intn(2) == 0 {
				x = 1 + r.Intn(len(u.names))
			}
			path = append(path, x)
			names = append(names, nameOf(x))
		}
		ctx, cancel := context.WithCancel(bgctx)
		cancelled := false
		switch r.Intn(6) {
		case 0:
			s.failNth(1+r.Intn(3), 0)
		case 1:
			if len(shards) > 0 {
				set := map[string]bool{}
				for i := 0; i < 1+len(shards)/2; i++ {
					set[shards[r.Intn(len(shards))].KeyString()] = true
				}
				s.failSome(set)
			}
		case 2:
			if r.Intn(3) == 0 {
				cancel()
				cancelled = true
			}
		}
		f0, cf0, a0, b0 := s.nFaults(), s.ctxFails, s.adds, len(s.blocks)
		g0 := s.gets
		arg := append([]string{}, names...)
		var l *ipld.Link
		var rest []string
		var err error
		var ng ipld.NodeGetter = s
		if r.Intn(2) == 0 {
			ng = getOnly{s}
		}
		res := Do(func() { l, rest, err = uio.ResolveUnixfsOnce(ctx, ng, nd, arg) })
		gets := s.gets - g0
		fault := s.nFaults() > f0 || s.ctxFails > cf0 || cancelled
		s.heal()
		cancel()
		got, size := 0, 0
		if l != nil {
			got, size = u.idOf(l)
		}
		same := err != nil
		if err == nil {
			same = len(rest) == len(names)-1
			for i := 0; same && i < len(rest); i++ {
				same = rest[i] == names[i+1]
			}
			for i := range names {
				same = same && arg[i] == names[i]
			}
		}
		// What a lookup in the directory says.
		found := -1
		if len(names) > 0 && r.Intn(2) == 0 {
			x, ok := s.load(root.Cid())
			if !ok {
				must(errors.New("no root"))
			}
			Do(func() {
				d, err := uio.NewDirectoryFromNode(s, x)
				if err != nil {
					return
				}
				y, err := d.Find(bgctx, names[0])
				if err == nil {
					found = u.cix[y.Cid().KeyString()]
				} else if dirErr(err) == "notexist" {
					found = 0
				}
			})
			if found < 0 {
				found = -2
			}
		}
		c.Emit("Resolve", M{"path": path, "err": resolveErr(err), "res": res, "haslink": l != nil, "got": got, "size": size, "rest": same, "fault": fault,
			"adds": s.adds - a0 + len(s.blocks) - b0, "same": bytes.Equal(enc0, nd.RawData()), "found": found, "gets": gets, "depth": depthOf(u, ents, names, lg)})
		if res == "hang" {
			c.hung = true
			return
		}
	}
}

// depthOf tells how many shards below the root there are on the way to a name
// in the canonical trie of the entries.
func depthOf(u *universe, ents []int, names []string, lg int) int {
	if len(names) == 0 {
		return 0
	}
	h := hash64(names[0])
	d := 0
	for lv := 1; lv*lg <= 64; lv++ {
		n := 0
		for i, x := range u.names {
			if ents[i] > 0 && hash64(x)>>uint(64-lv*lg) == h>>uint(64-lv*lg) {
				n++
			}
		}
		if n < 2 {
			break
		}
		d++
	}
	return d
}
