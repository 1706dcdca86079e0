package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	scenarios["enum"] = scenEnum
}

// gateCtl makes blocks arrive in an order of its choice: requests wait until
// they are let through, one at a time, picked at random among those waiting.
type gateCtl struct {
	mu      sync.Mutex
	pending []chan struct{}
	seed    int64
	stop    chan struct{}
}

func newGate(s *Store, r *rand.Rand, pause time.Duration) *gateCtl {
	g := &gateCtl{stop: make(chan struct{})}
	rr := rand.New(rand.NewSource(r.Int63()))
	s.gate = func(ctx context.Context, c cid.Cid) error {
		ch := make(chan struct{})
		g.mu.Lock()
		g.pending = append(g.pending, ch)
		g.mu.Unlock()
		select {
		case <-ch:
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	go func() {
		for {
			select {
			case <-g.stop:
				return
			case <-time.After(pause):
			}
			g.mu.Lock()
			if n := len(g.pending); n > 0 {
				k := 1
				if rr.Intn(4) == 0 {
					k = 1 + rr.Intn(n)
				}
				for ; k > 0; k-- {
					i := rr.Intn(len(g.pending))
					close(g.pending[i])
					g.pending = append(g.pending[:i], g.pending[i+1:]...)
				}
			}
			g.mu.Unlock()
		}
	}()
	return g
}

func (g *gateCtl) close(s *Store) {
	close(g.stop)
	s.gate = nil
}

// settle waits until there are no more goroutines than before.
func settle(before int) bool {
	for i := 0; i < 1200; i++ {
		if runtime.NumGoroutine() <= before {
			return true
		}
		if i < 50 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(20 * time.Millisecond)
		}
	}
	curCase.hung = true
	b := make([]byte, 1<<16)
	fmt.Fprintf(os.Stderr, "goroutines left: %d, not %d\n%s\n", runtime.NumGoroutine(), before, b[:runtime.Stack(b, true)])
	return false
}

// corrupt returns a block that isn't a shard of the HAMT.
func corrupt(r *rand.Rand, nd *dag.ProtoNode) ipld.Node {
	fsn, err := ft.FSNodeFromBytes(nd.Data())
	must(err)
	switch r.Intn(6) {
	case 0:
		return dag.NewRawNode([]byte("raw"))
	case 1:
		return dag.NodeWithData([]byte{0xff, 0xff})
	case 2:
		return ft.EmptyDirNode()
	case 3: // another hash function
		x, err := ft.HAMTShardData(fsn.Data(), fsn.Fanout(), 0x12)
		must(err)
		return withLinks(dag.NodeWithData(x), nd.Links())
	case 4: // a fan-out that isn't a power of two
		x, err := ft.HAMTShardData(fsn.Data(), fsn.Fanout()+8, hamt.HashMurmur3)
		must(err)
		if fsn.Fanout() == 8 {
			x, err = ft.HAMTShardData(fsn.Data(), 24, hamt.HashMurmur3)
			must(err)
		}
		return withLinks(dag.NodeWithData(x), nd.Links())
	}
	// a link with a name that is too short
	x, err := ft.HAMTShardData(fsn.Data(), fsn.Fanout(), hamt.HashMurmur3)
	must(err)
	ls := nd.Links()
	y := dag.NodeWithData(x)
	for i, l := range ls {
		n := l.Name
		if i == len(ls)-1 {
			n = ""
		}
		must(y.AddRawLink(n, l))
	}
	return y
}

func withLinks(n *dag.ProtoNode, ls []*ipld.Link) *dag.ProtoNode {
	for _, l := range ls {
		must(n.AddRawLink(l.Name, l))
	}
	return n
}

// subShards lists the shards below a shard, in the store.
func subShards(s *Store, n ipld.Node) []cid.Cid {
	var out []cid.Cid
	b, _ := s.Raw(n.Cid())
	for _, k := range kids(n.Cid(), b) {
		out = append(out, k)
		if ch, ok := s.load(k); ok {
			out = append(out, subShards(s, ch)...)
		}
	}
	return out
}

func scenEnum(c *Case) {
	r := c.R
	s := NewStore()
	lg := []int{3, 3, 3, 4, 4, 5, 6, 8}[r.Intn(8)]
	n := r.Intn(30)
	if r.Intn(4) == 0 {
		n = 30 + r.Intn(120)
	}
	if n == 0 {
		n = 1
	}
	u := mkUniverse(r, s, n, 2+r.Intn(3), lg, false, false)
	sh, err := hamt.NewShard(s, 1<<uint(lg))
	must(err)
	ents := make([]int, n)
	for i, nm := range u.names {
		if r.Intn(12) == 0 {
			continue
		}
		x := r.Intn(len(u.nodes))
		must(sh.Set(bgctx, nm, u.nodes[x]))
		ents[i] = x + 1
	}
	root, err := sh.Node()
	must(err)
	basic := r.Intn(12) == 0
	if basic {
		x := ft.EmptyDirNode()
		for i, k := range ents {
			if k > 0 {
				must(x.AddNodeLink(u.names[i], u.nodes[k-1]))
			}
		}
		root = x
		s.Put(x)
	}
	subs := subShards(s, root)
	oldT := uio.HAMTShardingSize
	uio.HAMTShardingSize = 0
	defer func() { uio.HAMTShardingSize = oldT }()

	// A handle on the directory, with parts of it loaded and edited.
	useShard := !basic && r.Intn(2) == 0
	root, _ = s.load(root.Cid())
	var d dirAPI
	if useShard {
		x, err := hamt.NewHamtFromDag(s, root)
		must(err)
		d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
	} else {
		x, err := uio.NewDirectoryFromNode(s, root)
		must(err)
		d = dynDir{x}
	}
	for k := r.Intn(6) * r.Intn(2); k > 0; k-- {
		i := r.Intn(n)
		switch r.Intn(3) {
		case 0:
			d.find(bgctx, u.names[i])
		case 1:
			x := r.Intn(len(u.nodes))
			_, _, err := d.add(bgctx, u.names[i], u.nodes[x])
			must(err)
			ents[i] = x + 1
		case 2:
			if ents[i] > 0 {
				_, _, err := d.remove(bgctx, u.names[i])
				must(err)
				ents[i] = 0
			}
		}
	}
	// What goes wrong: blocks that can't be fetched or aren't what they should.
	broken := 0
	var fail map[string]bool
	failN := 0
	if len(subs) > 0 {
		switch r.Intn(5) {
		case 0:
			fail = map[string]bool{}
			for k := 1 + r.Intn(3); k > 0; k-- {
				fail[subs[r.Intn(len(subs))].KeyString()] = true
			}
			broken = len(fail)
		case 1:
			k := subs[r.Intn(len(subs))]
			nd, ok := s.load(k)
			if !ok {
				break
			}
			x := corrupt(r, nd.(*dag.ProtoNode))
			// It has another CID, which doesn't matter to a store in memory:
			// it is served with the one that was asked for.
			s.mu.Lock()
			s.swap = map[string]ipld.Node{k.KeyString(): x}
			s.mu.Unlock()
			broken = 1
		case 2:
			failN = 1 + r.Intn(len(subs))
			broken = 1
		}
	}
	ns, ds := u.describe()
	for i := range ns {
		ns[i]["h"] = []int{}
	}
	c.kind = kindN(n) + kindN(lg) + kindN(broken)
	tries := 1 + r.Intn(4)
	c.Emit("Enum0", M{"names": ns, "nodes": ds, "ents": ents, "broken": broken, "subs": len(subs)})
	for t := 0; t < tries; t++ {
		how := []string{"Enum", "Enum", "Links", "Each"}[r.Intn(4)]
		mode := r.Intn(8)
		k := r.Intn(n + 1)
		if r.Intn(3) == 0 {
			k = r.Intn(3)
		}
		if fail != nil {
			s.failSome(fail)
		}
		if failN > 0 {
			s.failNth(failN, 0)
		}
		before := runtime.NumGoroutine()
		gated := r.Intn(4) > 0
		var g *gateCtl
		if gated {
			g = newGate(s, r, time.Duration(r.Intn(60))*time.Microsecond)
		}
		ctx, cancel := context.WithCancel(bgctx)
		cancelled := false
		f0 := s.nFaults()
		ls := [][]int{}
		errs, late := 0, 0
		var err error
		abandoned := false
		seen := func() {
			if (mode == 2 || mode == 3) && len(ls) == k && !cancelled {
				cancel()
				cancelled = true
			}
			if mode == 1 {
				time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
			}
		}
		var tm *time.Timer
		if mode == 4 {
			cancel()
			cancelled = true
		}
		var tmu sync.Mutex
		if mode == 5 {
			tm = time.AfterFunc(time.Duration(r.Intn(2000))*time.Microsecond, func() {
				tmu.Lock()
				cancelled = true
				cancel()
				tmu.Unlock()
			})
		}
		var res string
		if mode == 0 && r.Intn(2) == 0 {
			pair(c, r, d, u, s, k)
			cancel()
			nb := before
			if g != nil {
				defer g.close(s)
				nb++
			}
			if c.hung {
				return
			}
			if !settle(nb) {
				c.Emit("Enum", M{"how": "Enum", "mode": 8, "list": [][]int{}, "errs": 0, "late": 0, "err": "nil", "cancelled": true,
					"abandoned": true, "res": "ok", "leak": true, "fault": false})
				return
			}
			if g != nil {
				s.gate = nil
			}
			s.heal()
			continue
		}
		if how == "Enum" {
			res = Do(func() {
				ch := d.enum(ctx)
				seen()
				for lr := range ch {
					if lr.Err != nil {
						errs++
						err = lr.Err
						continue
					}
					if errs > 0 {
						late++
					}
					ls = append(ls, u.entry(lr.Link))
					seen()
					if mode == 3 && cancelled {
						abandoned = true
						return
					}
				}
			})
		} else if how == "Links" {
			if mode == 2 || mode == 3 {
				mode = 0
			}
			res = Do(func() {
				var x []*ipld.Link
				x, err = d.links(ctx)
				ls = u.entries(x)
			})
		} else {
			res = Do(func() {
				seen()
				err = d.each(ctx, func(l *ipld.Link) error {
					ls = append(ls, u.entry(l))
					seen()
					return nil
				})
			})
		}
		if tm != nil {
			tm.Stop()
		}
		tmu.Lock()
		canc := cancelled
		tmu.Unlock()
		faulted := s.nFaults() > f0 || s.swaps > 0
		cancel() // the caller is done with it
		leak := false
		if g != nil {
			// Those that are still being waited for go away as well.
			defer g.close(s)
		}
		nb := before
		if g != nil {
			nb++ // the gate itself
		}
		if res == "ok" && !settle(nb) {
			leak = true
		}
		if g != nil {
			s.gate = nil
		}
		s.heal()
		c.Emit("Enum", M{"how": how, "mode": mode, "list": ls, "errs": errs, "late": late, "err": dirErr(err), "cancelled": canc, "abandoned": abandoned,
			"res": res, "leak": leak, "fault": faulted})
		if res == "hang" {
			c.hung = true
			return
		}
		if leak {
			return
		}
	}
}

// pair lists a directory twice at once. The first of the listings may be
// cancelled in the middle, which is none of the other's business.
func pair(c *Case, r *rand.Rand, d dirAPI, u *universe, s *Store, k int) {
	f0 := s.nFaults()
	ctx1, cancel1 := context.WithCancel(bgctx)
	ctx2, cancel2 := context.WithCancel(bgctx)
	defer cancel1()
	defer cancel2()
	give := r.Intn(2) == 0
	var ls [2][][]int
	var errs, late [2]int
	var errOf [2]error
	stopped := false
	res := Do(func() {
		chs := [2]<-chan ft.LinkResult{d.enum(ctx1), d.enum(ctx2)}
		open := [2]bool{true, true}
		for open[0] || open[1] {
			i := 0
			var lr ft.LinkResult
			var ok bool
			// One of them, or whichever is ready.
			if open[0] && open[1] {
				switch r.Intn(3) {
				case 0:
					lr, ok = <-chs[0]
				case 1:
					i = 1
					lr, ok = <-chs[1]
				default:
					select {
					case lr, ok = <-chs[0]:
					case lr, ok = <-chs[1]:
						i = 1
					}
				}
			} else {
				if open[1] {
					i = 1
				}
				lr, ok = <-chs[i]
			}
			if !ok {
				open[i] = false
				continue
			}
			if lr.Err != nil {
				errs[i]++
				errOf[i] = lr.Err
				continue
			}
			if errs[i] > 0 {
				late[i]++
			}
			ls[i] = append(ls[i], u.entry(lr.Link))
			if i == 0 && give && len(ls[0]) == k {
				cancel1()
				stopped = true
				open[0] = false
			}
		}
	})
	fault := s.nFaults() > f0 || s.swaps > 0
	for i := range ls {
		if ls[i] == nil {
			ls[i] = [][]int{}
		}
		c.Emit("Enum", M{"how": "Enum", "mode": 6 + i, "list": ls[i], "errs": errs[i], "late": late[i], "err": dirErr(errOf[i]),
			"cancelled": i == 0 && stopped, "abandoned": i == 0 && stopped, "res": res, "leak": false, "fault": fault})
	}
	if res == "hang" {
		c.hung = true
	}
}

var _ = ft.TFile
