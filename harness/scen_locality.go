package main

import (
	"bytes"
	"context"
	"io"
	"runtime"
	"sort"
	"strconv"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	pb "github.com/ipfs/go-unixfs/pb"
)

// Which blocks are fetched by what is done to files and directories.

func init() { scenarios["locality"] = scenLocality }

func scenLocality(c *Case) {
	if c.R.Intn(2) == 0 {
		localFile(c)
	} else {
		localDir(c)
	}
}

// tally counts the fetches of each of some blocks.
type tally struct {
	s   *Store
	ids map[string]int
	n   []int // by id
	etc int   // blocks that have no id
}

func newTally(s *Store) *tally {
	t := &tally{s: s}
	s.onGet = func(k cid.Cid) error {
		if i := t.ids[k.KeyString()]; i > 0 {
			t.n[i]++
		} else {
			t.etc++
		}
		return nil
	}
	return t
}

func (t *tally) is(k cid.Cid, id int) {
	t.ids[k.KeyString()] = id
	for len(t.n) <= id {
		t.n = append(t.n, 0)
	}
}

func (t *tally) reset() {
	t.s.mu.Lock()
	defer t.s.mu.Unlock()
	t.ids, t.n, t.etc = map[string]int{}, nil, 0
}

// counts returns the blocks that were fetched and how often, also the number
// of fetches of others.
func (t *tally) counts() ([][]int, int) {
	t.s.mu.Lock()
	defer t.s.mu.Unlock()
	out := [][]int{}
	for i, n := range t.n {
		if n > 0 {
			out = append(out, []int{i, n})
		}
	}
	return out, t.etc
}

func localFile(c *Case) {
	r := c.R
	s := NewStore()
	before := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(bgctx)
	defer cancel()
	// No two blocks are the same.
	const unit = 3
	n := 1 + r.Intn([]int{6, 40, 90}[r.Intn(3)])
	data := make([]byte, 0, n*unit)
	for i := 0; i < n; i++ {
		data = append(data, byte(200+r.Intn(50)), byte(i>>7), byte(i&127))
	}
	data = data[:len(data)-r.Intn(unit)]
	ml := []int{2, 2, 3, 5, 20, 40, 174}[r.Intn(7)]
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	raw := r.Intn(2) == 0
	lay := []string{"balanced", "trickle"}[r.Intn(2)]
	csz := unit * (1 + r.Intn(2)*r.Intn(3))
	nd, err := build(s, &importCfg{layout: lay, ml: ml, raw: raw, cc: cc}, chunker.NewSizeSplitter(bytes.NewReader(data), int64(csz)))
	must(err)
	api := []string{"reader", "reader", "view", "mod", "mod"}[r.Intn(5)]
	c.kind = lay + api + kindN(len(data)) + kindN(ml)
	meta := api != "mod" && r.Intn(6) == 0
	if meta {
		p := pbNode(pb.Data_Metadata, []byte{0x0a, 1, 'x'}, nil, 0)
		must(p.AddRawLink("", &ipld.Link{Size: treeSizes(s, nd), Cid: nd.Cid()}))
		s.Put(p)
		nd = p
	}
	t := newTally(s)
	L := len(data)
	describe := func(nd ipld.Node) {
		t.reset()
		nodes := [][]int{}
		var walk func(n ipld.Node, p, i, lo int) int
		walk = func(n ipld.Node, p, i, lo int) int {
			nodes = append(nodes, []int{p, i, lo, lo})
			id := len(nodes)
			t.is(n.Cid(), id)
			hi := lo
			if len(n.Links()) == 0 {
				var b []byte
				fileTree(s, n, &b)
				hi += len(b)
			}
			for j, l := range n.Links() {
				ch, ok := s.load(l.Cid)
				if !ok {
					panic(harnessError("local"))
				}
				hi = walk(ch, id, j+1, hi)
			}
			nodes[id-1][3] = hi
			return hi
		}
		L = walk(nd, 0, 1, 0)
		c.Emit("File", M{"nodes": nodes, "meta": meta})
	}
	describe(nd)
	did := func(op string, off, k int, res string, err error) bool {
		got, _ := t.counts()
		c.Emit("Do", M{"op": op, "off": off, "k": k, "got": got, "res": res, "err": errName(err)})
		return res == "ok" && err == nil
	}
	if api == "mod" {
		var dm *mod.DagModifier
		old := h.DefaultLinksPerBlock
		h.DefaultLinksPerBlock = ml
		defer func() { h.DefaultLinksPerBlock = old }()
		res := Do(func() { dm, err = mod.NewDagModifier(ctx, nd, s, chunker.SizeSplitterGen(int64(csz))) })
		if !did("open", 0, 0, res, err) {
			return
		}
		dm.RawLeaves = raw
		// A block of the file that is made anew (of zeros, where the file has
		// some) isn't told from the new one.
		s.onAdd = func(k cid.Cid, _ []byte) error {
			delete(t.ids, k.KeyString())
			return nil
		}
		at := 0 // position
		for k := 1 + r.Intn(4); k > 0; k-- {
			for i := r.Intn(3); i > 0; i-- {
				off, n := r.Intn(L+1), r.Intn(10)
				var to int64
				switch r.Intn(4) {
				case 0:
					res = Do(func() { to, err = dm.Seek(int64(off), io.SeekStart) })
					if !settle(before) {
						return
					}
					at = int(to)
					if !did("seekmod", int(to), 0, res, err) {
						return
					}
				case 1:
					res = Do(func() { to, err = dm.Size() })
					if !did("size", 0, 0, res, err) {
						return
					}
				default:
					if at > L {
						// Seeking there, or from there, makes the file longer.
						continue
					}
					b := make([]byte, n)
					var m int
					to = int64(at)
					res = Do(func() { m, err = dm.Read(b) })
					at += m
					if err == io.EOF {
						err = nil
					}
					// What was requested ahead isn't to be taken for
					// something the next edit asks for.
					if !settle(before) {
						return
					}
					if !did("readmod", int(to), m, res, err) {
						return
					}
				}
			}
			var root ipld.Node
			if r.Intn(4) > 0 {
				off, n := r.Intn(L+1), 1+r.Intn(8)
				switch r.Intn(5) {
				case 0:
					off = L
				case 1:
					off = L + r.Intn(4)
				}
				b := make([]byte, n)
				r.Read(b)
				b[0] = byte(k) // no two blocks are the same
				res = Do(func() {
					if _, err = dm.WriteAt(b, int64(off)); err == nil {
						root, err = dm.GetNode()
					}
				})
				at = off + n
				if !did("write", off, n, res, err) {
					return
				}
			} else {
				off := r.Intn(L + 4)
				res = Do(func() {
					if err = dm.Truncate(int64(off)); err == nil {
						root, err = dm.GetNode()
					}
				})
				if !did("truncate", off, 0, res, err) {
					return
				}
			}
			// What was requested ahead may arrive late.
			if !settle(before) {
				return
			}
			x, ok := s.load(root.Cid())
			if !ok || len(x.Links()) == 0 {
				return
			}
			if dup(x, s) {
				return
			}
			describe(x)
		}
		return
	}
	var dr uio.DagReader
	var f files.File
	var rd io.ReadSeeker
	res := Do(func() {
		if api == "view" {
			var n files.Node
			if n, err = unixfile.NewUnixfsFile(ctx, s, nd); err == nil {
				f = n.(files.File)
				rd = f
			}
			return
		}
		dr, err = uio.NewDagReader(ctx, nd, s)
		rd = dr
	})
	if !did("open", 0, 0, res, err) {
		return
	}
	pos := 0
	for k := 1 + r.Intn(8); k > 0; k-- {
		off, n := r.Intn(L+1), r.Intn(12)
		if r.Intn(4) == 0 {
			n = r.Intn(L + 1)
		}
		op := []string{"read", "read", "read", "ctxread", "seek", "seek", "seek", "rest", "size"}[r.Intn(9)]
		if op == "rest" && r.Intn(3) > 0 {
			op = "read"
		}
		var m int
		var to int64
		switch op {
		case "read":
			b := make([]byte, n)
			res = Do(func() { m, err = rd.Read(b) })
		case "ctxread":
			b := make([]byte, n)
			res = Do(func() {
				if dr == nil {
					m, err = rd.Read(b)
					return
				}
				m, err = dr.CtxReadFull(ctx, b)
			})
			op = "read"
		case "rest":
			res = Do(func() {
				var w bytes.Buffer
				if dr == nil {
					to, err = io.Copy(struct{ io.Writer }{&w}, struct{ io.Reader }{rd})
				} else {
					to, err = dr.WriteTo(&w)
				}
				m = int(to)
			})
			op = "read"
		case "size":
			res = Do(func() {
				if dr == nil {
					to, err = f.Size()
				} else {
					to = int64(dr.Size())
				}
			})
		case "seek":
			wh := r.Intn(3)
			d := off
			if wh == io.SeekCurrent {
				d = off - pos
			} else if wh == io.SeekEnd {
				d = -r.Intn(L + 1)
			}
			res = Do(func() { to, err = rd.Seek(int64(d), wh) })
			pos = int(to)
		}
		if err == io.EOF {
			err = nil
		}
		pre := pos
		if op == "read" {
			pos += m
		}
		if !did(op, pre, m, res, err) {
			return
		}
	}
	cancel()
	settle(before)
	did("late", 0, 0, "ok", nil)
}

// dup tells whether some block occurs more than once.
func dup(nd ipld.Node, s *Store) bool {
	seen := map[cid.Cid]bool{}
	var walk func(n ipld.Node) bool
	walk = func(n ipld.Node) bool {
		if seen[n.Cid()] {
			return true
		}
		seen[n.Cid()] = true
		for _, l := range n.Links() {
			ch, ok := s.load(l.Cid)
			if !ok {
				panic(harnessError("dup"))
			}
			if walk(ch) {
				return true
			}
		}
		return false
	}
	return walk(nd)
}

func localDir(c *Case) {
	r := c.R
	s := NewStore()
	before := runtime.NumGoroutine()
	lg := []int{3, 3, 3, 4, 5, 8}[r.Intn(6)]
	n := 2 + r.Intn([]int{10, 60}[r.Intn(2)])
	u := mkUniverse(r, s, n, 2+r.Intn(8), lg, r.Intn(2) == 0, false)
	// As far as the hashes tell them apart.
	seen := map[uint64]bool{}
	var names []string
	for _, nm := range u.names {
		k := hash64(nm) >> uint(64%lg)
		if !seen[k] {
			seen[k] = true
			names = append(names, nm)
		}
	}
	u.rename(names)
	n = len(u.names)
	oldT, oldW := uio.HAMTShardingSize, uio.DefaultShardWidth
	defer func() { uio.HAMTShardingSize, uio.DefaultShardWidth = oldT, oldW }()
	uio.DefaultShardWidth = 1 << uint(lg)
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	api := []string{"dir", "hamt", "dir", "basic"}[r.Intn(4)]
	uio.HAMTShardingSize = []int{0, 0, 1 + r.Intn(1000), 1 << 20}[r.Intn(4)]
	c.kind = "dir" + api + kindN(n) + kindN(lg)
	digits := func(nm string) []int {
		out := []int{}
		x := hash64(nm)
		for i := 0; (i+1)*lg <= 64; i++ {
			out = append(out, int(x<<uint(lg*i)>>uint(64-lg)))
		}
		return out
	}
	var ls []*ipld.Link
	has := map[string]int{}
	for _, nm := range u.names {
		if r.Intn(5) == 0 {
			continue
		}
		x := 1 + r.Intn(len(u.nodes))
		sz, err := u.nodes[x-1].Size()
		must(err)
		ls = append(ls, &ipld.Link{Name: nm, Cid: u.nodes[x-1].Cid(), Size: sz})
		has[nm] = x
	}
	var nd ipld.Node
	if api == "basic" {
		sort.SliceStable(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
		nd = handDir(s, ls, cc)
	} else {
		nd = handShard(s, ls, lg, 0, cc)
	}
	t := newTally(s)
	pad := len(hexUpper(1<<uint(lg) - 1))
	describe := func(nd ipld.Node) {
		t.reset()
		for i, x := range u.nodes {
			t.is(x.Cid(), i+1)
		}
		shards := [][]int{}
		var walk func(n ipld.Node, path []int)
		walk = func(n ipld.Node, path []int) {
			shards = append(shards, append([]int{}, path...))
			t.is(n.Cid(), len(u.nodes)+len(shards))
			for _, l := range n.Links() {
				if len(l.Name) != pad {
					continue
				}
				d, err := strconv.ParseInt(l.Name, 16, 32)
				must(err)
				ch, ok := s.load(l.Cid)
				if !ok {
					panic(harnessError("local"))
				}
				walk(ch, append(path[:len(path):len(path)], int(d)))
			}
		}
		if isShard(nd) {
			walk(nd, nil)
		}
		dg := [][]int{}
		for _, nm := range u.names {
			dg = append(dg, digits(nm))
		}
		c.Emit("Dir", M{"nodes": len(u.nodes), "shards": shards, "digits": dg})
	}
	describe(nd)
	last := map[int]int{}
	lastEtc := 0
	forget := func() { last, lastEtc = map[int]int{}, 0 }
	did := func(op string, nm int, vals []int, res string, err error) bool {
		now, etc := t.counts()
		got := [][]int{}
		for _, x := range now {
			if d := x[1] - last[x[0]]; d > 0 {
				got = append(got, []int{x[0], d})
			}
			last[x[0]] = x[1]
		}
		if vals == nil {
			vals = []int{}
		}
		c.Emit("Look", M{"op": op, "name": nm, "vals": vals, "got": got, "etc": etc - lastEtc, "res": res, "err": dirErr(err)})
		lastEtc = etc
		return res == "ok" && (err == nil || dirErr(err) == "notexist")
	}
	var d dirAPI
	var err error
	open := func() bool {
		res := Do(func() {
			if api == "hamt" {
				var x *hamt.Shard
				x, err = hamt.NewHamtFromDag(s, nd)
				d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
			} else {
				var x uio.Directory
				x, err = uio.NewDirectoryFromNode(s, nd)
				d = dynDir{x}
			}
		})
		return did("open", 1, nil, res, err)
	}
	if !open() {
		return
	}
	dirty := false
	for k := 1 + r.Intn(10); k > 0; k-- {
		i := r.Intn(n)
		nm := u.names[i]
		x := 1 + r.Intn(len(u.nodes))
		op := []string{"find", "find", "find", "add", "add", "remove", "links", "each", "enum", "resolve", "view", "node"}[r.Intn(12)]
		// Where a directory may become a basic one again it is measured.
		measured := api != "hamt" && d.kind() == "hamt" && uio.HAMTShardingSize > 0
		switch {
		case op == "remove" && measured:
			op = "find"
		case op == "add" && measured && has[nm] > 0:
			op = "find"
		case op == "resolve" && dirty:
			op = "find"
		case op == "view" && (dirty || api == "hamt"):
			op = "links"
		}
		var res string
		vals := []int{}
		switch op {
		case "find":
			if has[nm] > 0 {
				vals = append(vals, has[nm])
			}
			res = Do(func() { _, _, err = d.find(bgctx, nm) })
		case "add":
			res = Do(func() { _, _, err = d.add(bgctx, nm, u.nodes[x-1]) })
			has[nm], dirty = x, true
		case "remove":
			res = Do(func() { _, _, err = d.remove(bgctx, nm) })
			if has[nm] > 0 {
				dirty = true
			}
			delete(has, nm)
		case "links":
			res = Do(func() { _, err = d.links(bgctx) })
		case "each":
			res = Do(func() { err = d.each(bgctx, func(*ipld.Link) error { return nil }) })
		case "enum":
			res = Do(func() {
				err = nil
				for x := range d.enum(bgctx) {
					if x.Err != nil {
						err = x.Err
					}
				}
			})
		case "resolve":
			if has[nm] > 0 {
				vals = append(vals, has[nm])
			}
			res = Do(func() {
				_, _, err = uio.ResolveUnixfsOnce(bgctx, s, nd, []string{nm})
				if resolveErr(err) == "notexist" {
					err = nil
				}
			})
		case "view":
			ctx, cancel := context.WithCancel(bgctx)
			stop := r.Intn(len(has) + 2)
			res = Do(func() {
				var f files.Node
				if f, err = unixfile.NewUnixfsFile(ctx, s, nd); err != nil {
					return
				}
				if _, err = f.Size(); err != nil {
					return
				}
				it := f.(files.Directory).Entries()
				for len(vals) < stop && it.Next() {
					vals = append(vals, has[it.Name()])
				}
				err = it.Err()
			})
			cancel()
			if !settle(before) {
				return
			}
		case "node":
			var x ipld.Node
			res = Do(func() { x, err = d.node() })
			if !did("node", 1, nil, res, err) {
				return
			}
			if r.Intn(2) == 0 {
				nd, dirty = x, false
				s.Put(nd)
				// What is loaded is as it was stored.
				forget()
				describe(nd)
				if !open() {
					return
				}
			}
			continue
		}
		if !did(op, i+1, vals, res, err) {
			return
		}
	}
}
