package main

import (
	"bytes"
	"context"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"sync/atomic"
	"time"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
)

// Operations whose context is cancelled while blocks they may need don't
// arrive.

func init() { scenarios["context"] = scenContext }

// stops tells how the context of an operation comes to its end.
type stops struct {
	c    *Case
	s    *Store
	r    *rand.Rand
	how  string // "", "before", "waiting", "deadline"
	fell int32
}

func (x *stops) cancelled() bool { return atomic.LoadInt32(&x.fell) == 1 }

// run runs f with a context made from parent, or with parent itself if the
// operation has no context of its own; cancelParent cancels that one.
func (x *stops) run(parent context.Context, cancelParent func(), own bool, f func(ctx context.Context)) string {
	ctx, cancel := parent, cancelParent
	if own {
		if x.how == "deadline" {
			ctx, cancel = context.WithTimeout(parent, time.Duration(x.r.Intn(1500))*time.Microsecond)
		} else {
			ctx, cancel = context.WithCancel(parent)
		}
		defer cancel()
	}
	stop := func() { atomic.StoreInt32(&x.fell, 1); cancel() }
	done := make(chan struct{})
	gone := make(chan struct{})
	pause := time.Duration(0)
	if x.r.Intn(3) == 0 {
		pause = time.Duration(x.r.Intn(300)) * time.Microsecond
	}
	switch {
	case x.how == "before":
		stop()
		close(gone)
	case x.how == "waiting" || x.how == "deadline" && !own:
		w := x.s.waiting
		go func() {
			defer close(gone)
			select {
			case <-w:
				time.Sleep(pause)
				stop()
			case <-time.After(200 * time.Millisecond):
				// It waits for a block requested before, in the background.
				stop()
			case <-done:
			}
		}()
	case x.how == "deadline":
		go func() {
			defer close(gone)
			select {
			case <-ctx.Done():
				atomic.StoreInt32(&x.fell, 1)
			case <-done:
				// It may have happened by now.
				if ctx.Err() != nil {
					atomic.StoreInt32(&x.fell, 1)
				}
			}
		}()
	default:
		close(gone)
	}
	res := Do(func() { f(ctx) })
	close(done)
	<-gone
	return res
}

func scenContext(c *Case) {
	r := c.R
	s := NewStore()
	s.lax = false
	before := runtime.NumGoroutine()
	root, cancelRoot := context.WithCancel(bgctx)
	defer cancelRoot()
	hows := []string{"before", "waiting", "waiting", "waiting", "deadline"}

	// All the blocks below a node, or some of them, don't arrive.
	stick := func(n ipld.Node, alsoRoot bool) {
		var all []string
		seen := map[string]bool{}
		var walk func(n ipld.Node, top bool)
		walk = func(n ipld.Node, top bool) {
			k := n.Cid().KeyString()
			if seen[k] {
				return
			}
			seen[k] = true
			if !top || alsoRoot {
				all = append(all, k)
			}
			for _, l := range n.Links() {
				if ch, ok := s.load(l.Cid); ok {
					walk(ch, false)
				}
			}
		}
		walk(n, true)
		set := map[string]bool{}
		switch r.Intn(3) {
		case 0:
			for _, k := range all {
				set[k] = true
			}
		case 1:
			for _, k := range all {
				if r.Intn(3) == 0 {
					set[k] = true
				}
			}
		case 2:
			if len(all) > 0 {
				set[all[r.Intn(len(all))]] = true
			}
		}
		s.stick(set)
	}
	end := func() {
		// Nothing goes on once all the contexts are cancelled, even though
		// the blocks still don't arrive.
		cancelRoot()
		c.Emit("End", M{"leak": !settle(before)})
		s.unstick()
	}
	endClosed := func() {
		c.Emit("End", M{"leak": !settle(before)})
		cancelRoot()
		s.unstick()
	}

	switch r.Intn(6) {
	case 0:
		ctxReader(c, s, root, cancelRoot, hows, stick, end, endClosed)
	case 1:
		ctxModifier(c, s, root, cancelRoot, hows, stick, end)
	case 2, 3:
		ctxDir(c, s, root, hows, stick, end)
	case 4:
		ctxAppend(c, s, root, hows, stick, end)
	case 5:
		ctxView(c, s, root, cancelRoot, hows, stick, end)
	}
}

type ctxStick func(n ipld.Node, alsoRoot bool)

func ctxReader(c *Case, s *Store, root context.Context, cancelRoot func(), hows []string, stick ctxStick, end, endClosed func()) {
	r := c.R
	f := mkFile(r, s, 80)
	c.kind = "reader" + f.kind + kindN(len(f.data))
	L := len(f.data)
	c.Emit("File", M{"c": dec(f.data, 1)})
	stuckOpen := r.Intn(4) == 0
	var dr uio.DagReader
	var err error
	if stuckOpen {
		stick(f.root, false)
		st := &stops{c: c, s: s, r: r, how: hows[r.Intn(len(hows))]}
		res := st.run(root, nil, true, func(ctx context.Context) { dr, err = uio.NewDagReader(ctx, f.root, s) })
		c.Emit("Open", M{"res": res, "err": errName(err), "cancelled": st.cancelled()})
		if c.hung = res == "hang"; c.hung {
			return
		}
		s.unstick()
	}
	res := Do(func() { dr, err = uio.NewDagReader(root, f.root, s) })
	c.Emit("Open", M{"res": res, "err": errName(err), "cancelled": false})
	if res != "ok" || err != nil {
		return
	}
	stopReader := cancelRoot
	do := func(op string, k int, how string) bool {
		st := &stops{c: c, s: s, r: r, how: how}
		b := make([]byte, k)
		var got []byte
		var err error
		var ret int64
		res := st.run(root, stopReader, op == "CtxReadFull", func(ctx context.Context) {
			var n int
			switch op {
			case "CtxReadFull":
				n, err = dr.CtxReadFull(ctx, b)
				got = b[:n]
			case "Read":
				n, err = dr.Read(b)
				got = b[:n]
			case "Seek":
				ret, err = dr.Seek(int64(k), io.SeekStart)
			case "WriteTo":
				var w bytes.Buffer
				_, err = dr.WriteTo(&w)
				got = w.Bytes()
			}
		})
		ev := M{"op": op, "n": k, "got": dec(got, 1), "err": errName(err), "ret": clampI(ret), "res": res, "cancelled": st.cancelled(), "pos": -1}
		if res == "ok" {
			if p, e := dr.Seek(0, io.SeekCurrent); e == nil {
				ev["pos"] = clampI(p)
			}
		}
		c.Emit("Read", ev)
		c.hung = res == "hang"
		return !c.hung
	}
	some := func() (string, int) {
		switch r.Intn(5) {
		case 0:
			return "Read", r.Intn(L + 3)
		case 1:
			return "Seek", r.Intn(L + 1)
		}
		return "CtxReadFull", r.Intn(L + 3)
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		for i := r.Intn(3); i > 0; i-- {
			op, n := some()
			if !do(op, n, "") {
				return
			}
		}
		stick(f.root, false)
		for i := 1 + r.Intn(2); i > 0; i-- {
			if !do("CtxReadFull", r.Intn(L+3), hows[r.Intn(len(hows))]) {
				return
			}
		}
		if k == 1 && r.Intn(2) == 0 {
			// The context of the reader itself, or the reader is closed, which
			// comes to the same.
			op := []string{"Read", "Seek", "WriteTo"}[r.Intn(3)]
			ended := r.Intn(3)
			if ended > 0 {
				c.kind += "C"
				stopReader = func() { dr.(io.Closer).Close() }
			}
			do(op, r.Intn(L+1), hows[r.Intn(4)])
			if !c.hung && ended == 2 {
				// Nothing of it goes on, whatever becomes of the context that it
				// was opened with.
				dr.(io.Closer).Close()
				endClosed()
			} else if !c.hung {
				end()
			}
			return
		}
		if k == 1 && r.Intn(2) == 0 {
			break
		}
		s.unstick()
		// Again, and up to the end.
		if r.Intn(2) == 0 && !do("Seek", r.Intn(L+1), "") {
			return
		}
		if !do("CtxReadFull", L+1, "") {
			return
		}
		if r.Intn(2) == 0 {
			if !do("Seek", r.Intn(L+1), "") {
				return
			}
		}
	}
	end()
}

func ctxModifier(c *Case, s *Store, root context.Context, cancelRoot func(), hows []string, stick ctxStick, end func()) {
	r := c.R
	f := mkModBase(r, s, 1, 3)
	for isMeta2(f.root) {
		ch, _ := s.load(f.root.Links()[0].Cid)
		f.root = ch
	}
	old := h.DefaultLinksPerBlock
	h.DefaultLinksPerBlock = 2 + r.Intn(4)
	defer func() { h.DefaultLinksPerBlock = old }()
	L := len(f.data)
	c.kind = "modifier" + f.kind + kindN(L)
	c.Emit("File", M{"c": dec(f.data, 1)})
	dm, err := mod.NewDagModifier(root, f.root, s, chunker.SizeSplitterGen(int64(1+r.Intn(4))))
	must(err)
	g := &tokGen{next: 120 + r.Intn(100)}
	do := func(op string, k, off int, how string) bool {
		st := &stops{c: c, s: s, r: r, how: how}
		var got []byte
		var err error
		d := []int{}
		b := make([]byte, k)
		if op == "WriteAt" {
			d = g.take(k)
			copy(b, enc(d, 1))
		}
		res := st.run(root, cancelRoot, op == "CtxReadFull", func(ctx context.Context) {
			var n int
			switch op {
			case "CtxReadFull":
				n, err = dm.CtxReadFull(ctx, b)
				got = b[:n]
			case "Read":
				n, err = dm.Read(b)
				got = b[:n]
			case "Seek":
				_, err = dm.Seek(int64(off), io.SeekStart)
			case "WriteAt":
				if _, err = dm.WriteAt(b, int64(off)); err == nil {
					err = dm.Sync()
				}
			case "Truncate":
				err = dm.Truncate(int64(off))
			case "GetNode":
				var nd ipld.Node
				nd, err = dm.GetNode()
				if err == nil {
					fileTree(s, nd, &got)
				}
			}
		})
		c.Emit("Mod", M{"op": op, "n": k, "off": off, "d": d, "got": dec(got, 1), "err": errName(err), "res": res, "cancelled": st.cancelled()})
		c.hung = res == "hang"
		return !c.hung
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		for i := r.Intn(3); i > 0; i-- {
			if !do([]string{"Read", "WriteAt", "Seek"}[r.Intn(3)], r.Intn(4), r.Intn(L+1), "") {
				return
			}
		}
		// From here on there is a reader.
		if !do("Read", r.Intn(3), 0, "") {
			return
		}
		nd, err := dm.GetNode()
		must(err)
		stick(nd, false)
		if !do("CtxReadFull", 1+r.Intn(L+2), 0, hows[r.Intn(len(hows))]) {
			return
		}
		if r.Intn(2) == 0 {
			op := []string{"Read", "WriteAt", "Truncate"}[r.Intn(3)]
			do(op, 1+r.Intn(5), r.Intn(L+2), hows[r.Intn(4)])
			if !c.hung {
				end()
			}
			return
		}
		s.unstick()
		if !do("CtxReadFull", L+1, 0, "") {
			return
		}
		if !do("Seek", 0, r.Intn(L+1), "") {
			return
		}
	}
	do("GetNode", 0, 0, "")
	end()
}

func isMeta2(n ipld.Node) bool {
	pn, ok := n.(*dag.ProtoNode)
	return ok && len(pn.Links()) == 1 && len(pn.Data()) < 12 && isMeta(pn)
}

func ctxDir(c *Case, s *Store, root context.Context, hows []string, stick ctxStick, end func()) {
	r := c.R
	lg := []int{3, 3, 4, 5, 8}[r.Intn(5)]
	n := 3 + r.Intn(20)
	u := mkUniverse(r, s, n, 2+r.Intn(3), lg, false, false)
	oldT, oldW := uio.HAMTShardingSize, uio.DefaultShardWidth
	defer func() { uio.HAMTShardingSize, uio.DefaultShardWidth = oldT, oldW }()
	uio.DefaultShardWidth = 1 << uint(lg)
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	var ls []*ipld.Link
	ents := [][]int{}
	total := 0
	for i, nm := range u.names {
		if r.Intn(4) == 0 {
			continue
		}
		x := r.Intn(len(u.nodes))
		sz, err := u.nodes[x].Size()
		must(err)
		ls = append(ls, &ipld.Link{Name: nm, Cid: u.nodes[x].Cid(), Size: sz})
		ents = append(ents, []int{i + 1, x + 1})
		total += len(nm) + u.nodes[x].Cid().ByteLen()
	}
	uio.HAMTShardingSize = []int{0, maxI(1, total/2), maxI(1, total), total + 40, 1 << 20}[r.Intn(5)]
	api := []string{"dir", "hamt", "dir", "basic"}[r.Intn(4)]
	var nd ipld.Node
	if api == "basic" {
		sort.SliceStable(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
		nd = handDir(s, ls, cc)
	} else {
		nd = handShard(s, ls, lg, 0, cc)
	}
	c.kind = "dir" + api + kindN(n) + kindN(lg)
	c.Emit("Entries", M{"ents": ents, "names": n})
	var d dirAPI
	var err error
	open := func(nd ipld.Node) {
		if api == "hamt" {
			var x *hamt.Shard
			x, err = hamt.NewHamtFromDag(s, nd)
			d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
		} else {
			var x uio.Directory
			x, err = uio.NewDirectoryFromNode(s, nd)
			d = dynDir{x}
		}
		must(err)
	}
	open(nd)
	do := func(op string, nm, x int, how string) bool {
		st := &stops{c: c, s: s, r: r, how: how}
		var err error
		list := [][]int{}
		val := 0
		closed := true
		add := func(l *ipld.Link) { list = append(list, u.entry(l)[:2]) }
		name := u.names[nm-1]
		res := st.run(root, nil, true, func(ctx context.Context) {
			switch op {
			case "add":
				_, _, err = d.add(ctx, name, u.nodes[x-1])
			case "remove":
				_, _, err = d.remove(ctx, name)
			case "find":
				var k cid.Cid
				if k, _, err = d.find(ctx, name); err == nil {
					val = u.cix[k.KeyString()]
				}
			case "links":
				var ls []*ipld.Link
				if ls, err = d.links(ctx); err == nil {
					for _, l := range ls {
						add(l)
					}
				}
			case "each":
				err = d.each(ctx, func(l *ipld.Link) error { add(l); return nil })
			case "enum":
				closed = false
				for x := range d.enum(ctx) {
					if x.Err != nil {
						err = x.Err
						continue
					}
					add(x.Link)
				}
				closed = true
			case "resolve":
				var l *ipld.Link
				// By the stored directory.
				l, _, err = uio.ResolveUnixfsOnce(ctx, s, nd, []string{name})
				if err == nil {
					val = u.cix[l.Cid.KeyString()]
				}
			}
		})
		e := dirErr(err)
		if op == "resolve" && resolveErr(err) == "notexist" {
			e = "notexist"
		}
		c.Emit("Dir", M{"op": op, "name": nm, "node": x, "err": e, "val": val, "list": list, "closed": closed, "res": res, "cancelled": st.cancelled()})
		c.hung = res == "hang"
		return !c.hung
	}
	dirty := false
	some := func() (string, int, int) {
		op := []string{"add", "add", "remove", "remove", "find", "links", "each", "enum", "resolve"}[r.Intn(9)]
		if op == "resolve" && dirty {
			op = "find"
		}
		if op == "add" || op == "remove" {
			dirty = true
		}
		return op, 1 + r.Intn(n), 1 + r.Intn(len(u.nodes))
	}
	reload := func() {
		if !dirty {
			open(nd)
			return
		}
		x, err := d.node()
		must(err)
		nd = x
		dirty = false
		open(nd)
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		for i := r.Intn(3); i > 0; i-- {
			op, a, b := some()
			if !do(op, a, b, "") {
				return
			}
		}
		if r.Intn(2) == 0 {
			reload()
		}
		stick(nd, true)
		for i := 1 + r.Intn(2); i > 0; i-- {
			op, a, b := some()
			if !do(op, a, b, hows[r.Intn(len(hows))]) {
				return
			}
			if k > 1 && i == 1 {
				s.unstick()
				if !do(op, a, b, "") {
					return
				}
			}
		}
		if k > 1 && !do("links", 1, 1, "") {
			return
		}
	}
	end()
}

func ctxAppend(c *Case, s *Store, root context.Context, hows []string, stick ctxStick, end func()) {
	r := c.R
	g := &tokGen{next: r.Intn(250)}
	ml, csz := 2+r.Intn(3), 1+r.Intn(3)
	first := g.take(r.Intn(40))
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	p := h.DagBuilderParams{Maxlinks: ml, RawLeaves: r.Intn(2) == 0, CidBuilder: cc.b, Dagserv: s}
	db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(enc(first, 1)), int64(csz)))
	must(err)
	nd, err := trickle.Layout(db)
	must(err)
	c.kind = "append" + kindN(len(first)) + kindN(ml)
	c.Emit("File", M{"c": first})
	do := func(how string) bool {
		st := &stops{c: c, s: s, r: r, how: how}
		d := g.take(1 + r.Intn(20))
		got := []byte{}
		var out ipld.Node
		var err error
		res := st.run(root, nil, true, func(ctx context.Context) {
			db, e := p.New(chunker.NewSizeSplitter(bytes.NewReader(enc(d, 1)), int64(csz)))
			must(e)
			out, err = trickle.Append(ctx, nd.Copy(), db)
		})
		if res == "ok" && err == nil {
			fileTree(s, out, &got)
			nd = out
			s.Put(nd)
		}
		c.Emit("Append", M{"d": d, "got": dec(got, 1), "err": errName(err), "res": res, "cancelled": st.cancelled()})
		c.hung = res == "hang"
		return !c.hung
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		stick(nd, false)
		if !do(hows[r.Intn(len(hows))]) {
			return
		}
		if k > 1 {
			s.unstick()
			if !do("") {
				return
			}
		}
	}
	end()
}

func ctxView(c *Case, s *Store, root context.Context, cancelRoot func(), hows []string, stick ctxStick, end func()) {
	r := c.R
	t := &vtree{s: s, r: r, names: map[string]int{}, wide: r.Intn(2) == 0}
	t.build(1)
	ents := [][]int{}
	for _, x := range t.desc[0]["ents"].([][]int) {
		ents = append(ents, []int{x[0], x[1]})
	}
	c.kind = "view" + kindN(len(ents))
	c.Emit("Entries", M{"ents": ents, "names": len(t.names)})
	nd, _ := s.load(t.roots[0].Cid())
	if r.Intn(3) > 0 {
		stick(nd, false)
	}
	st := &stops{c: c, s: s, r: r, how: hows[r.Intn(4)]}
	if s.stuck == nil && st.how == "waiting" {
		st.how = []string{"", "before"}[r.Intn(2)]
	}
	list := [][]int{}
	var err error
	stop := -1
	if r.Intn(3) == 0 {
		stop = r.Intn(4)
		if st.how == "deadline" || s.stuck != nil {
			st.how = "waiting"
		}
		if s.stuck == nil {
			st.how = ""
		}
	}
	fell := false
	res := st.run(root, cancelRoot, false, func(context.Context) {
		var n files.Node
		if n, err = unixfile.NewUnixfsFile(root, s, nd); err != nil {
			return
		}
		it := n.(files.Directory).Entries()
		for len(list) != stop && it.Next() {
			nm := it.Name()
			list = append(list, []int{t.names[nm], t.kids[0][nm]})
		}
		if len(list) == stop {
			// Left alone for a while.
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			fell = true
			cancelRoot()
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			for it.Next() {
				nm := it.Name()
				list = append(list, []int{t.names[nm], t.kids[0][nm]})
			}
		}
		err = it.Err()
	})
	c.Emit("Dir", M{"op": "view", "name": 1, "node": 1, "err": dirErr(err), "val": 0, "list": list, "closed": true, "res": res, "cancelled": st.cancelled() || fell})
	c.hung = res == "hang"
	if !c.hung {
		end()
	}
}
