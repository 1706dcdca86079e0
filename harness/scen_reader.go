package main

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"sync/atomic"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	scenarios["reader"] = func(c *Case) { scenReader(c, false) }
	scenarios["readerfault"] = func(c *Case) { scenReader(c, true) }
}

var errWriter = errors.New("writer failed")

// limWriter accepts a number of bytes, then fails, or writes less than asked.
type limWriter struct {
	got   []byte
	left  int // -1: no limit
	short bool
}

func (w *limWriter) Write(b []byte) (int, error) {
	if w.left < 0 || len(b) <= w.left {
		w.got = append(w.got, b...)
		if w.left >= 0 {
			w.left -= len(b)
		}
		return len(b), nil
	}
	n := w.left
	w.got = append(w.got, b[:n]...)
	w.left = 0
	if w.short {
		return n, nil
	}
	return n, errWriter
}

func errName(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "EOF"
	}
	return "other"
}

type rdOp struct {
	op   string // R, C (CtxReadFull), S, W, Z (close)
	n    int
	wh   int
	off  int64
	lim  int
	shrt bool
	// faults
	cancel  int // cancel the context at the n-th fetch of this call (C); -1 before
	getFail int // make the n-th fetch from now on fail
	heal    bool
}

func parseRdOp(raw json.RawMessage) rdOp {
	var a []interface{}
	must(json.Unmarshal(raw, &a))
	i := func(k int) int { return int(a[k].(float64)) }
	o := rdOp{op: a[0].(string)}
	switch o.op {
	case "R", "C":
		o.n = i(1)
	case "S":
		o.wh, o.off = i(1), int64(i(2))
	case "W":
		o.lim = i(1)
	case "F":
		o.getFail = i(1)
	case "K":
		o.op = "C"
		o.n, o.cancel = i(1), i(2)
	case "H":
		o.heal = true
	}
	return o
}

// genTree builds the tree described by a number (leaf with so many bytes) or
// an array (node with these children).
func genTree(s *Store, raw json.RawMessage, g *tokGen, data *[]byte, kind int, r *rand.Rand) (ipld.Node, int) {
	cc := cidCfgs[kind%len(cidCfgs)]
	k := kind
	if k == 3 {
		k = r.Intn(3)
	}
	var n int
	if json.Unmarshal(raw, &n) == nil {
		b := enc(g.take(n), 1)
		*data = append(*data, b...)
		return handLeaf(s, k, b, cc), n
	}
	var cs []json.RawMessage
	must(json.Unmarshal(raw, &cs))
	var nds []ipld.Node
	var ns []int
	t := 0
	for _, x := range cs {
		nd, m := genTree(s, x, g, data, kind, r)
		nds, ns, t = append(nds, nd), append(ns, m), t+m
	}
	return handNode(s, nds, ns, cc), t
}

func scenReader(c *Case, faults bool) {
	r := c.R
	s := NewStore()
	max := 70
	if r.Intn(4) == 0 {
		max = 250
	}
	var f *file
	if genOps != nil {
		// The tree comes with the history.
		var t []json.RawMessage
		must(json.Unmarshal(genOps[c.N][0], &t))
		f = &file{kind: "gen", depth: 4}
		var n int
		f.root, n = genTree(s, t[1], &tokGen{next: r.Intn(250)}, &f.data, (c.N+genVariant)%4, r)
		_ = n
	} else {
		f = mkFile(r, s, max)
	}
	c.kind = f.kind + kindN(len(f.data)) + kindN(f.depth)
	cnt := func() int { s.mu.Lock(); defer s.mu.Unlock(); return s.faults }
	var dr uio.DagReader
	var err error
	ctx, cancelAll := context.WithCancel(bgctx)
	defer cancelAll()
	out := Do(func() { dr, err = uio.NewDagReader(ctx, f.root, s) })
	if out == "ok" && err != nil {
		out = "err"
	}
	size := -1
	if out == "ok" {
		size = clampU(dr.Size())
	}
	d := dec(f.data, 1)
	c.Emit("Open", M{"res": out, "size": size, "data": d, "depth": f.depth, "kind": f.kind, "kinds": 0})
	if out != "ok" {
		return
	}
	pos := func() int {
		p, err := dr.Seek(0, io.SeekCurrent)
		if err != nil {
			return -1
		}
		return clampI(p)
	}
	gen := genOps != nil
	n := 3 + r.Intn(12)
	if gen {
		n = len(genOps[c.N]) - 1
	}
	closed := false
	L := len(f.data)
	do := func(o rdOp) bool {
		ev := M{"res": "", "closed": closed}
		switch o.op {
		case "F":
			s.failNth(o.getFail, 0)
			return true
		case "H":
			s.heal()
			return true
		case "R", "C":
			b := make([]byte, o.n)
			var k int
			var err error
			cctx, cancel := context.WithCancel(ctx)
			var fired int32
			if o.op == "C" && o.cancel < 0 {
				cancel()
				fired = 1
			} else if o.op == "C" && o.cancel > 0 {
				m := 0
				s.mu.Lock()
				s.onGet = func(cid.Cid) error {
					m++
					if m == o.cancel {
						atomic.StoreInt32(&fired, 1)
						cancel()
					}
					return nil
				}
				s.mu.Unlock()
			}
			res := Do(func() {
				if o.op == "R" {
					k, err = dr.Read(b)
				} else {
					k, err = dr.CtxReadFull(cctx, b)
				}
			})
			ev["ctx"] = atomic.LoadInt32(&fired) == 1
			cancel()
			if o.op == "C" && o.cancel > 0 {
				s.heal()
			}
			if k < 0 || k > len(b) {
				ev["n"], ev["cnt"], ev["got"] = o.n, k, []int{}
			} else {
				ev["n"], ev["cnt"], ev["got"] = o.n, k, dec(b[:k], 1)
			}
			ev["err"], ev["res"] = errName(err), res
			ev["full"] = o.op == "C"
			ev["pos"], ev["faults"] = pos(), cnt()
			c.Emit("Read", ev)
			c.hung = res == "hang"
		case "S":
			var ret int64
			var err error
			res := Do(func() { ret, err = dr.Seek(o.off, o.wh) })
			ev["off"], ev["wh"], ev["ret"], ev["err"], ev["res"] = clampI(o.off), o.wh, clampI(ret), errName(err), res
			ev["pos"], ev["faults"] = pos(), cnt()
			c.Emit("Seek", ev)
			c.hung = res == "hang"
		case "W":
			w := &limWriter{left: o.lim, short: o.shrt}
			var k int64
			var err error
			res := Do(func() { k, err = dr.WriteTo(w) })
			ev["cnt"], ev["got"], ev["err"], ev["res"], ev["lim"] = clampI(k), dec(w.got, 1), errName(err), res, o.lim
			ev["pos"], ev["faults"] = pos(), cnt()
			c.Emit("WriteTo", ev)
			c.hung = res == "hang"
		case "Z":
			res := Do(func() { dr.Close() })
			closed = true
			c.Emit("Close", M{"res": res})
		}
		return !c.hung
	}
	for i := 0; i < n; i++ {
		var o rdOp
		if gen {
			o = parseRdOp(genOps[c.N][i+1])
			if !do(o) {
				return
			}
			continue
		}
		if faults && r.Intn(3) == 0 {
			if !do(rdOp{op: "F", getFail: 1 + r.Intn(5)}) {
				return
			}
		}
		switch r.Intn(9) {
		case 0, 1, 2:
			o.op = []string{"R", "C"}[r.Intn(2)]
			o.n = r.Intn(9)
			if r.Intn(3) == 0 {
				o.n = r.Intn(L + 5)
			}
			if faults && r.Intn(3) == 0 {
				o.op = "C"
				o.cancel = r.Intn(6) - 1
			}
		case 3, 4, 5, 6:
			o.op = "S"
			o.wh = r.Intn(3)
			p := pos()
			base := []int{0, p, L}[o.wh]
			switch r.Intn(6) {
			case 0: // before the start
				o.off = int64(-base - 1 - r.Intn(3))
			case 1: // at or past the end
				o.off = int64(L - base + r.Intn(4))
			case 2: // nearby
				o.off = int64(r.Intn(9) - 4)
			default:
				o.off = int64(r.Intn(L+1) - base)
			}
			if r.Intn(25) == 0 {
				o.wh = 3 + r.Intn(3)
			}
			if r.Intn(25) == 0 {
				o.wh, o.off = 0, 1<<40
			}
			if p >= big && o.wh == 1 {
				o.wh = 0
				o.off = 0
			}
		case 7:
			o.op = "W"
			o.lim = -1
			if r.Intn(2) == 0 || faults {
				o.lim = r.Intn(L + 2)
				o.shrt = r.Intn(4) == 0
			}
		case 8:
			o.op = "R"
			o.n = r.Intn(4)
			if r.Intn(10) == 0 && !faults {
				o.op = "Z"
			}
		}
		if !do(o) {
			return
		}
		if faults && r.Intn(3) == 0 {
			s.heal()
		}
	}
	// Whatever happened, the rest of the file can be read once faults are gone.
	s.heal()
	if faults && !closed {
		if pos() > L {
			if !do(rdOp{op: "S", wh: 0, off: int64(r.Intn(L + 1))}) {
				return
			}
		}
		for i := 0; i < 13*(f.depth+1); i++ {
			if !do(rdOp{op: "C", n: 7 + L/4}) {
				return
			}
			if c.evs[len(c.evs)-1]["err"] == "EOF" {
				break
			}
		}
	}
	if r.Intn(2) == 0 && !closed && !faults {
		do(rdOp{op: "W", lim: -1})
	}
}
