package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"time"

	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	unixfile "github.com/ipfs/go-unixfs/file"
)

func init() {
	scenarios["files"] = func(c *Case) { scenFiles(c, false) }
	scenarios["filesfault"] = func(c *Case) { scenFiles(c, true) }
}

// vtree is a tree that was put in the store, flattened: number i of the
// description is nodes[i-1].
type vtree struct {
	s     *Store
	r     *rand.Rand
	names map[string]int
	desc  []M
	roots []ipld.Node
	kids  []map[string]int // name -> number
	wide  bool             // the root has more entries than are fetched ahead
}

func (t *vtree) nameID(n string) int {
	if i, ok := t.names[n]; ok {
		return i
	}
	t.names[n] = len(t.names) + 1
	return t.names[n]
}

func (t *vtree) add(nd ipld.Node, m M, kids map[string]int) int {
	t.roots = append(t.roots, nd)
	t.desc = append(t.desc, m)
	t.kids = append(t.kids, kids)
	return len(t.roots)
}

func (t *vtree) build(depth int) int {
	r, s := t.r, t.s
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	k := r.Intn(10)
	if depth == 0 && k >= 5 {
		k = r.Intn(5)
	}
	if t.roots == nil {
		k = 5 + r.Intn(5)
	}
	switch {
	case k < 4:
		f := mkFile(r, s, 40)
		return t.add(f.root, M{"k": "file", "size": len(f.data), "data": dec(f.data, 1), "ents": [][]int{}, "target": ""}, nil)
	case k == 4:
		b := make([]byte, r.Intn(30))
		for i := range b {
			b[i] = "abc/.. é"[r.Intn(9)]
		}
		tg := string(b)
		return t.add(handSymlink(s, tg, cc), M{"k": "link", "size": len(tg), "data": []int{}, "ents": [][]int{}, "target": fmt.Sprintf("%x", tg)}, nil)
	}
	// A directory; its place among the nodes comes first.
	self := t.add(nil, nil, nil)
	n := r.Intn(7)
	if r.Intn(6) == 0 {
		n = 7 + r.Intn(20)
	}
	if t.roots[0] == nil && len(t.roots) == 1 && t.wide {
		n = 6 + r.Intn(10)
	}
	lg := []int{3, 3, 4, 5, 8}[r.Intn(5)]
	var ls []*ipld.Link
	kids := map[string]int{}
	ents := [][]int{}
	for _, nm := range mkNames(r, maxI(n, 1), lg, false, false)[:n] {
		if len(t.roots) > 60 {
			break
		}
		ch := t.build(depth - 1)
		ls = append(ls, &ipld.Link{Name: nm, Size: treeSizes(s, t.roots[ch-1]), Cid: t.roots[ch-1].Cid()})
		kids[nm] = ch
		ents = append(ents, []int{t.nameID(nm), ch})
	}
	var nd ipld.Node
	if k < 7 {
		nd = handDir(s, ls, cc)
	} else {
		nd = handShard(s, ls, lg, 0, cc)
	}
	t.roots[self-1] = nd
	t.kids[self-1] = kids
	t.desc[self-1] = M{"k": "dir", "size": int(treeSizes(s, nd)), "data": []int{}, "ents": ents, "target": ""}
	return self
}

func kindOf(n files.Node) string {
	switch n.(type) {
	case nil:
		return "nil"
	case files.Directory:
		return "dir"
	case *files.Symlink:
		return "link"
	case files.File:
		return "file"
	}
	return "?"
}

func scenFiles(c *Case, faults bool) {
	r := c.R
	s := NewStore()
	t := &vtree{s: s, r: r, names: map[string]int{}, wide: faults && r.Intn(3) == 0}
	t.build(2)
	c.kind = kindN(len(t.roots)) + kindN(len(t.names))
	c.Emit("Tree", M{"nodes": t.desc})

	gated := r.Intn(5) == 0
	var g *gateCtl
	before := runtime.NumGoroutine()
	if gated {
		g = newGate(s, r, time.Duration(r.Intn(30))*time.Microsecond)
	}
	ctx, cancel := context.WithCancel(bgctx)
	cancelAt := -1
	if faults && r.Intn(3) == 0 {
		cancelAt = r.Intn(20)
	}
	cancelled := false
	wait := r.Intn(2) == 0
	step := 0
	tick := func() {
		if step == cancelAt {
			// Sometimes only once whoever works ahead has nothing left to
			// do but wait, and with the time to notice.
			if wait {
				time.Sleep(2 * time.Millisecond)
			}
			cancel()
			cancelled = true
			if wait {
				time.Sleep(2 * time.Millisecond)
			}
		}
		step++
	}
	arm := func() {
		if !faults {
			return
		}
		switch r.Intn(4) {
		case 0:
			s.failNth(1+r.Intn(6), 0)
		case 1:
			s.heal()
		}
	}
	hung := false
	leakable := false
	var visit func(i int, n files.Node)
	visit = func(i int, n files.Node) {
		if hung {
			return
		}
		switch x := n.(type) {
		case *files.Symlink:
			sz, err := x.Size()
			c.Emit("Link", M{"i": i, "target": fmt.Sprintf("%x", x.Target), "size": int(sz), "err": errName(err)})
		case files.Directory:
			var subs []files.Node
			var idx []int
			size := int64(-1)
			list := [][]interface{}{}
			var err error
			f0 := s.nFaults()
			again, quiet := true, true
			stopAt := -1
			if r.Intn(12) == 0 {
				stopAt = r.Intn(5)
			}
			res := Do(func() {
				sz, e := x.Size()
				if e == nil {
					size = sz
				}
				arm()
				it := x.Entries()
				for len(list) != stopAt && it.Next() {
					nm := it.Name()
					ch := it.Node()
					j := t.kids[i-1][nm]
					list = append(list, []interface{}{t.names[nm], j, kindOf(ch)})
					if j > 0 && ch != nil {
						subs, idx = append(subs, ch), append(idx, j)
					}
					tick()
					if r.Intn(10) == 0 {
						arm()
					}
				}
				err = it.Err()
				if len(list) != stopAt {
					again = it.Next()
					quiet = (it.Err() == nil) == (err == nil)
				} else {
					again, leakable = false, true
				}
			})
			c.Emit("Iter", M{"i": i, "size": int(size), "list": list, "err": errName(err), "res": res, "again": again, "quiet": quiet,
				"stopped": len(list) == stopAt, "fault": s.nFaults() > f0 || s.ctxFails > 0 || cancelled})
			if res == "hang" {
				hung = true
				return
			}
			for k, ch := range subs {
				visit(idx[k], ch)
			}
			x.Close()
		case files.File:
			var b []byte
			var size int64
			var err, serr error
			f0 := s.nFaults()
			res := Do(func() {
				size, serr = x.Size()
				if serr != nil {
					size = -1
				}
				arm()
				// In pieces, with a change of position sometimes.
				buf := make([]byte, 1+r.Intn(20))
				for {
					n, e := x.Read(buf)
					b = append(b, buf[:n]...)
					if e == io.EOF {
						break
					}
					if e != nil {
						err = e
						break
					}
				}
				tick()
			})
			c.Emit("File", M{"i": i, "size": int(size), "got": dec(b, 1), "err": errName(err), "res": res, "fault": s.nFaults() > 0 || s.nFaults() > f0 || s.ctxFails > 0 || cancelled})
			if res == "hang" {
				hung = true
			}
		}
	}
	var mu sync.Mutex
	mu.Lock()
	root, _ := s.load(t.roots[0].Cid())
	mu.Unlock()
	var n files.Node
	var err error
	f0 := s.nFaults()
	arm()
	res := Do(func() { n, err = unixfile.NewUnixfsFile(ctx, s, root) })
	c.Emit("Open", M{"i": 1, "kind": kindOf(n), "err": errName(err), "res": res, "fault": s.nFaults() > f0})
	if res == "ok" && err == nil {
		visit(1, n)
	}
	cancel()
	c.hung = hung
	if !hung {
		nb := before
		if g != nil {
			nb++
		}
		c.Emit("End", M{"leak": !settle(nb)})
	}
	if g != nil {
		g.close(s)
	}
	_ = leakable
}
