package main

import (
	"os"
	"runtime"
	"time"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

// Directories of up to some thousand entries, which are filled and emptied in
// bulk; widths up to the largest, and thresholds up to the default.

func init() { scenarios["bigdir"] = scenBigDir }

func scenBigDir(c *Case) {
	r := c.R
	s := NewStore()
	lg := []int{3, 4, 5, 6, 7, 8, 8, 8, 9, 10}[r.Intn(10)]
	n := 100 + r.Intn(500)
	if r.Intn(3) == 0 {
		n += r.Intn(1200)
	}
	u := mkUniverse(r, s, n, 1+r.Intn(4), lg, false, false)
	switch r.Intn(6) {
	case 0:
		// Long names: the whole comes to more than 64K.
		nm := []string{}
		for i := range u.names {
			b := make([]byte, 150+r.Intn(110))
			for j := range b {
				b[j] = "abcdefgh-_. "[r.Intn(12)]
			}
			nm = append(nm, string(b)+itoa(i))
		}
		u.rename(nm)
	case 1:
		// Names with much in common.
		nm := []string{}
		pre := []string{"f", "file-", "a/b", "IMG_2020"}[r.Intn(4)]
		for i := range u.names {
			nm = append(nm, pre+itoa(i))
		}
		u.rename(nm)
	}
	api := "dir"
	if r.Intn(3) == 0 {
		api = "hamt"
	}
	oldT, oldW := uio.HAMTShardingSize, uio.DefaultShardWidth
	defer func() { uio.HAMTShardingSize, uio.DefaultShardWidth = oldT, oldW }()
	uio.DefaultShardWidth = 1 << uint(lg)
	full := 0
	for i := range u.names {
		full += len(u.names[i]) + u.nodes[i%len(u.nodes)].Cid().ByteLen()
	}
	switch r.Intn(6) {
	case 0:
		uio.HAMTShardingSize = []int{0, 262144, 32768, 65536}[r.Intn(4)]
	default:
		uio.HAMTShardingSize = full/8 + r.Intn(full)
	}
	cc := cidCfgs[r.Intn(len(cidCfgs))]
	var d dirAPI
	if api == "dir" {
		x := uio.NewDirectory(s)
		x.SetCidBuilder(cc.b)
		d = dynDir{x}
	} else {
		x, err := hamt.NewShard(s, 1<<uint(lg))
		must(err)
		x.SetCidBuilder(cc.b)
		d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
	}
	ns, ds := u.describe()
	c.kind = api + kindN(n) + kindN(lg)
	c.Emit("Big", M{"names": ns, "nodes": ds, "T": uio.HAMTShardingSize, "lg": lg, "api": api, "ver": cc.ver, "mh": cc.mh})
	in := map[int]bool{}
	fill := func(k int, add bool) bool {
		ops := [][]int{}
		odd := [][]int{} // what isn't as it should be: operation, what
		kinds := []int{} // the operations that changed the kind
		res := "ok"
		p := r.Perm(n)
		for _, i := range p {
			if len(ops) == k {
				break
			}
			a := add
			if r.Intn(12) == 0 {
				a = !a
			}
			if in[i] == a && r.Intn(8) > 0 {
				continue
			}
			x := 0
			if a {
				x = 1 + r.Intn(len(u.nodes))
			}
			was := d.kind()
			var err error
			var old *ipld.Link
			var has bool
			res = Do(func() {
				if a {
					old, has, err = d.add(bgctx, u.names[i], u.nodes[x-1])
				} else {
					old, has, err = d.remove(bgctx, u.names[i])
				}
			})
			o := -1
			if has {
				o = 0
				if old != nil {
					o = u.cix[old.Cid.KeyString()]
				}
			}
			ops = append(ops, []int{i + 1, x, o})
			if err == os.ErrNotExist {
				odd = append(odd, []int{len(ops), 1})
			} else if err != nil || res != "ok" {
				odd = append(odd, []int{len(ops), 2})
			}
			if d.kind() != was {
				kinds = append(kinds, len(ops))
			}
			if res != "ok" {
				break
			}
			in[i] = a
		}
		c.Emit("Fill", M{"ops": ops, "odd": odd, "sw": kinds, "res": res})
		c.hung = res == "hang"
		return res == "ok"
	}
	steps := 3 + r.Intn(6)
	for i := 0; i < steps; i++ {
		k := 1 + r.Intn(n)
		ok := true
		switch {
		case i == 0:
			ok = fill(n/2+r.Intn(n/2), true)
		case r.Intn(4) == 0:
			ok = fill(k, r.Intn(3) == 0)
		}
		if !ok {
			return
		}
		var g *gateCtl
		var res string
		var err error
		before := runtime.NumGoroutine()
		if r.Intn(3) == 0 {
			g = newGate(s, r, time.Duration(r.Intn(60))*time.Microsecond)
			before++
		}
		leak := false
		done := func() {
			leak = !settle(before)
			if g != nil {
				g.close(s)
			}
		}
		switch op := []string{"Links", "Enum", "Each", "Node", "Reload", "Reload", "Find", "View"}[r.Intn(8)]; op {
		case "Links", "Enum", "Each":
			var ls [][]int
			res = Do(func() {
				switch op {
				case "Links":
					var l []*ipld.Link
					l, err = d.links(bgctx)
					ls = u.entries(l)
				case "Enum":
					for x := range d.enum(bgctx) {
						if x.Err != nil {
							err = x.Err
							continue
						}
						ls = append(ls, u.entry(x.Link))
					}
				case "Each":
					err = d.each(bgctx, func(l *ipld.Link) error {
						ls = append(ls, u.entry(l))
						return nil
					})
				}
			})
			done()
			if ls == nil {
				ls = [][]int{}
			}
			c.Emit("List", M{"op": op, "list": ls, "res": res, "err": dirErr(err), "leak": leak})
		case "Node", "Reload", "View":
			var nd ipld.Node
			res = Do(func() { nd, err = d.node() })
			done()
			ev := M{"op": op, "res": res, "err": dirErr(err), "tree": M{"k": "none"}, "kind": d.kind(), "leak": leak}
			if res == "ok" && err == nil {
				ev["tree"] = dirTree(s, u, nd)
			}
			c.Emit("Node", ev)
			if res != "ok" || err != nil {
				break
			}
			nd, err = decodeNode(nd.Cid(), nd.RawData())
			must(err)
			if op == "View" {
				got := []int{}
				err = nil
				res = Do(func() {
					var f files.Node
					s.Put(nd)
					if f, err = unixfile.NewUnixfsFile(bgctx, s, nd); err != nil {
						return
					}
					it := f.(files.Directory).Entries()
					for it.Next() {
						got = append(got, u.nix[it.Name()])
					}
					err = it.Err()
				})
				c.Emit("View", M{"list": got, "res": res, "err": dirErr(err)})
			}
			if op == "Reload" {
				res = Do(func() {
					if api == "dir" {
						var x uio.Directory
						x, err = uio.NewDirectoryFromNode(s, nd)
						d = dynDir{x}
					} else {
						var x *hamt.Shard
						x, err = hamt.NewHamtFromDag(s, nd)
						d = shardDir{x, r, s, map[cid.Cid]*ipld.Link{}}
					}
				})
				c.Emit("Load", M{"res": res, "err": dirErr(err)})
			}
		case "Find":
			got := [][]int{}
			for k := 20 + r.Intn(60); k > 0 && (res == "" || res == "ok"); k-- {
				i := r.Intn(n)
				var x cid.Cid
				v := 0
				res = Do(func() { x, _, err = d.find(bgctx, u.names[i]) })
				if err == nil && res == "ok" {
					v = u.cix[x.KeyString()]
				} else if err != os.ErrNotExist {
					v = -1
				}
				got = append(got, []int{i + 1, v})
			}
			done()
			c.Emit("Find", M{"got": got, "res": res, "leak": leak})
		}
		if res != "ok" || leak {
			c.hung = c.hung || res == "hang"
			return
		}
	}
}

func itoa(i int) string {
	b := []byte{}
	for {
		b = append([]byte{byte('0' + i%10)}, b...)
		if i /= 10; i == 0 {
			return string(b)
		}
	}
}
