package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	importer "github.com/ipfs/go-unixfs/importer"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
)

func init() {
	scenarios["import"] = scenImport
	scenarios["append"] = scenAppend
	scenarios["nocopy"] = scenNoCopy
}

var errSource = errors.New("source failed")

// fragReader hands out the data in pieces of varying sizes, some of them
// together with the EOF, and can fail after a number of bytes.
type fragReader struct {
	d    []byte
	r    *rand.Rand
	mode int // 0: everything at once, 1: one byte at a time, 2: random, 3: random and EOF with the last piece
	fail int // bytes until the failure, -1: never
}

func (f *fragReader) Read(b []byte) (int, error) {
	if f.fail == 0 {
		return 0, errSource
	}
	if len(f.d) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	switch f.mode {
	case 1:
		n = 1
	case 2, 3:
		n = 1 + f.r.Intn(len(b)+3)/(1+f.r.Intn(3))
	}
	if n > len(b) {
		n = len(b)
	}
	if n == 0 {
		n = 1
	}
	if len(b) == 0 {
		return 0, nil
	}
	if n > len(f.d) {
		n = len(f.d)
	}
	if f.fail > 0 && n > f.fail {
		n = f.fail
	}
	copy(b, f.d[:n])
	f.d = f.d[n:]
	if f.fail > 0 {
		f.fail -= n
	}
	if f.mode == 3 && len(f.d) == 0 && f.fail != 0 {
		return n, io.EOF
	}
	return n, nil
}

// spySplitter records the chunks that go through it and can fail at one.
type spySplitter struct {
	chunker.Splitter
	chunks *[]int
	failAt int // -1: never
	bytes  int
	failed bool
	err    error // what it fails with
	join   bool  // hand out the last chunk together with io.EOF
	ahead  []byte
	eof    bool
}

// Whatever the source fails with, other than io.EOF, it has failed.
var sourceErrs = []error{errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled, io.ErrNoProgress, os.ErrNotExist}

func (s *spySplitter) NextBytes() ([]byte, error) {
	if s.failAt >= 0 && len(*s.chunks) >= s.failAt {
		s.failed = true
		if s.err != nil {
			return nil, s.err
		}
		return nil, errSource
	}
	b, err := s.next()
	if err == nil {
		*s.chunks = append(*s.chunks, len(b))
		s.bytes += len(b)
	} else if err != io.EOF {
		s.failed = true
	}
	return b, err
}

func (s *spySplitter) next() ([]byte, error) {
	if !s.join {
		return s.Splitter.NextBytes()
	}
	if s.eof {
		return nil, io.EOF
	}
	b := s.ahead
	if b == nil {
		var err error
		if b, err = s.Splitter.NextBytes(); err != nil {
			return b, err
		}
	}
	var err error
	s.ahead, err = s.Splitter.NextBytes()
	if err == io.EOF {
		s.eof = true
		*s.chunks = append(*s.chunks, len(b))
		s.bytes += len(b)
		return b, io.EOF
	}
	if err != nil {
		s.failed = true
		return nil, err
	}
	return b, nil
}

// listSplitter makes chunks of given sizes.
type listSplitter struct {
	r     io.Reader
	sizes []int
	i     int
	eof   bool
}

func (s *listSplitter) Reader() io.Reader { return s.r }
func (s *listSplitter) NextBytes() ([]byte, error) {
	if s.eof {
		return nil, io.EOF
	}
	n := s.sizes[s.i%len(s.sizes)]
	s.i++
	b := make([]byte, n)
	k, err := io.ReadFull(s.r, b)
	if err == io.ErrUnexpectedEOF {
		return b[:k], nil
	}
	s.eof = err == io.EOF
	if err != nil {
		return nil, err
	}
	return b, nil
}

type importCfg struct {
	layout string
	ml     int
	raw    bool
	cc     cidCfg
	split  string
	size   int
	sizes  []int
	u      int
	nocopy bool
	deflt  bool // through importer.Build*FromReader
}

func (ic *importCfg) splitter(r io.Reader) chunker.Splitter {
	switch ic.split {
	case "size":
		return chunker.NewSizeSplitter(r, int64(ic.size))
	case "rabin":
		return chunker.NewRabinMinMax(r, 16, 48, 128)
	default:
		return &listSplitter{r: r, sizes: ic.sizes}
	}
}

func build(s ipld.DAGService, ic *importCfg, spl chunker.Splitter) (ipld.Node, error) {
	if ic.deflt {
		if ic.layout == "balanced" {
			return importer.BuildDagFromReader(s, spl)
		}
		return importer.BuildTrickleDagFromReader(s, spl)
	}
	p := &h.DagBuilderParams{Maxlinks: ic.ml, RawLeaves: ic.raw, CidBuilder: ic.cc.b, Dagserv: s, NoCopy: ic.nocopy}
	db, err := p.New(spl)
	if err != nil {
		return nil, err
	}
	if ic.layout == "balanced" {
		return balanced.Layout(db)
	}
	return trickle.Layout(db)
}

// rawFails is a CID builder that fails once, at a raw block.
type rawFails struct {
	b      cid.Builder
	codec  uint64
	at     *int // failures happen when it gets to 0
	failed *bool
}

func (f *rawFails) WithCodec(c uint64) cid.Builder {
	return &rawFails{b: f.b.WithCodec(c), codec: c, at: f.at, failed: f.failed}
}

func (f *rawFails) GetCodec() uint64 { return f.codec }

func (f *rawFails) Sum(d []byte) (cid.Cid, error) {
	if f.codec == cid.Raw {
		if *f.at--; *f.at == 0 {
			*f.failed = true
			return cid.Undef, errors.New("no such hash function")
		}
	}
	return f.b.Sum(d)
}

func newRawFails(cc cidCfg, at int) *rawFails {
	b := cc.b
	if b == nil {
		b = dag.V0CidPrefix()
	}
	return &rawFails{b: b, codec: cid.DagProtobuf, at: &at, failed: new(bool)}
}

// randLen picks lengths (in units), biased to boundaries of the shapes.
func randLen(r *rand.Rand, max int) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(4)
	case 1:
		return r.Intn(max/4 + 1)
	}
	return r.Intn(max + 1)
}

func randImportCfg(r *rand.Rand, maxLeaves int) (*importCfg, []int) {
	ic := &importCfg{layout: []string{"balanced", "trickle"}[r.Intn(2)], raw: r.Intn(2) == 0, cc: cidCfgs[r.Intn(len(cidCfgs))], u: 1}
	ic.ml = []int{2, 2, 3, 3, 4, 5, 7, 8, 11, 16, 30, 174}[r.Intn(12)]
	leaves := 0
	// Full shapes, one more and one less, as often as anything else.
	if r.Intn(2) == 0 {
		p := 1
		for p < maxLeaves && r.Intn(3) > 0 {
			p *= ic.ml
		}
		leaves = p*(1+r.Intn(2)) + r.Intn(3) - 1
	} else {
		leaves = randLen(r, maxLeaves)
	}
	if leaves > maxLeaves {
		leaves = maxLeaves
	}
	if leaves < 0 {
		leaves = 0
	}
	var n int
	switch r.Intn(8) {
	case 0:
		ic.split = "list"
		k := 1 + r.Intn(5)
		ic.sizes = ints(k, func(int) int { return 1 + r.Intn(9) })
		if r.Intn(3) == 0 {
			// Some of the chunks are empty.
			for i := 1; i < k; i++ {
				ic.sizes[i] *= r.Intn(2)
			}
		}
		for i := 0; i < leaves; i++ {
			n += ic.sizes[i%k]
		}
		n -= r.Intn(2)
	case 1:
		ic.split = "rabin"
		n = r.Intn(600)
	default:
		ic.split = "size"
		ic.size = []int{1, 1, 2, 3, 5}[r.Intn(5)]
		n = leaves*ic.size - r.Intn(ic.size)
	}
	if n < 0 {
		n = 0
	}
	g := &tokGen{next: r.Intn(250)}
	toks := g.take(n)
	if r.Intn(5) == 0 {
		// Repeated blocks and zeros.
		toks = ints(n, func(i int) int { return (i / 3) % 2 })
	}
	if r.Intn(12) == 0 && ic.split == "size" {
		// Large blocks.
		ic.u = 20000 + r.Intn(20000)
		ic.size = ic.u*(1+r.Intn(3)) + r.Intn(7)
		if len(toks) > 24 {
			toks = toks[:24]
		}
	}
	return ic, toks
}

func importFields(ic *importCfg) M {
	return M{"layout": ic.layout, "ml": ic.ml, "raw": ic.raw, "ver": ic.cc.ver, "mh": ic.cc.mh, "U": ic.u, "split": ic.split, "csize": ic.size}
}

func genInt(raw json.RawMessage) int {
	var k int
	must(json.Unmarshal(raw, &k))
	return k
}

// genImport: layout, width and number of chunks come from the specification.
func genImport(c *Case, ic *importCfg) (*importCfg, []int) {
	o := genOps[c.N]
	must(json.Unmarshal(o[0], &ic.layout))
	ic.ml, ic.split, ic.size, ic.u = genInt(o[1]), "size", 1, 1
	if c.R.Intn(3) == 0 {
		ic.size = 2 + c.R.Intn(3)
	}
	n := genInt(o[2]) * ic.size
	if n > 0 {
		n -= c.R.Intn(ic.size)
	}
	toks := (&tokGen{next: c.R.Intn(250)}).take(n)
	if c.R.Intn(4) == 0 {
		toks = make([]int, n) // all the chunks are the same
	}
	return ic, toks
}

// One case is one import, done twice with differently fragmented sources, with
// or without a failure.
func scenImport(c *Case) {
	r := c.R
	maxLeaves := 90
	if c.Tier == "thorough" {
		maxLeaves = 180
	}
	ic, toks := randImportCfg(r, maxLeaves)
	if genOps != nil {
		ic, toks = genImport(c, ic)
	} else if r.Intn(200) == 0 {
		// Many levels.
		ic.ml, ic.split, ic.size, ic.u = 2+r.Intn(3), "size", 1, 1
		toks = (&tokGen{next: r.Intn(250)}).take(1300 + r.Intn(1700))
	} else if r.Intn(10) == 0 {
		ic.deflt = true
		ic.raw, ic.cc = false, cidCfgs[0]
		old := h.DefaultLinksPerBlock
		h.DefaultLinksPerBlock = ic.ml
		defer func() { h.DefaultLinksPerBlock = old }()
	}
	data := enc(toks, ic.u)
	limit := 1 << 20
	if genOps == nil && r.Intn(6) == 0 && ic.u == 1 && ic.split != "rabin" {
		old := h.BlockSizeLimit
		limit = 1 + r.Intn(6)
		h.BlockSizeLimit = limit
		defer func() { h.BlockSizeLimit = old }()
	}
	srcFail, addFail := -1, 0
	splErr := sourceErrs[r.Intn(len(sourceErrs))]
	join := r.Intn(8) == 0
	splFail := -1
	k := r.Intn(7)
	if genOps != nil {
		k = -1
	}
	switch k {
	case 0:
		srcFail = 1 + r.Intn(len(data)+1)
		if srcFail > len(data) {
			srcFail = len(data)
			if srcFail == 0 {
				srcFail = -1
			}
		}
	case 1:
		addFail = 1 + r.Intn(12)
	case 2:
		splFail = r.Intn(12)
	}
	rawFail := 0
	if ic.raw && k == 3 && r.Intn(2) == 0 {
		rawFail = 1 + r.Intn(12)
	}
	plain := ic.cc
	m := importFields(ic)
	m["data"] = toks
	m["limit"] = limit
	var roots []int
	var shared = NewStore()
	for k := 0; k < 2; k++ {
		s := shared
		faults0 := s.nFaults()
		src := &fragReader{d: data, r: r, mode: r.Intn(4), fail: srcFail}
		chunks := []int{}
		spl := &spySplitter{Splitter: ic.splitter(src), chunks: &chunks, failAt: splFail, err: splErr, join: join}
		if addFail > 0 {
			s.failNth(0, addFail)
		}
		rf := newRawFails(plain, rawFail)
		if rawFail > 0 {
			ic.cc.b = rf
		}
		var nd ipld.Node
		var err error
		out := Do(func() { nd, err = build(s, ic, spl) })
		s.heal()
		if out == "ok" && err != nil {
			out = "err"
		}
		if out == "ok" && nd == nil {
			out = "nilroot"
		}
		fault := spl.failed || s.nFaults() > faults0 || *rf.failed
		ev := M{}
		for a, b := range m {
			ev[a] = b
		}
		ev["res"], ev["fault"], ev["chunks"], ev["run"] = out, fault, chunks, k
		ev["got"], ev["size"], ev["root"], ev["stored"], ev["tree"] = []int{}, 0, 0, false, M{}
		ev["prev"] = 0
		if len(roots) > 0 {
			ev["prev"] = roots[0]
		}
		if out == "ok" {
			var content []byte
			stored, ok := s.load(nd.Cid())
			ev["stored"] = ok
			s.Handed(nd.Cid())
			if ok {
				ev["tree"] = fileTree(s, stored, &content)
			}
			ev["got"] = dec(content, ic.u)
			ev["size"] = -1
			if sz, err := readerSize(s, nd); err == nil {
				ev["size"] = sz
			}
			ev["root"] = s.ID(nd.Cid())
			roots = append(roots, s.ID(nd.Cid()))
		}
		c.kind = ic.layout + ic.split + out + kindN(ic.ml) + kindN(len(chunks))
		c.Emit("Import", ev)
		if out == "hang" {
			c.hung = true
			return
		}
	}
}

func kindN(n int) string {
	return string(rune('0'+n%64)) + string(rune('0'+n/64))
}

func readerSize(s *Store, nd ipld.Node) (int, error) {
	dr, err := uio.NewDagReader(bgctx, nd, calm{s})
	if err != nil {
		return 0, err
	}
	return clampU(dr.Size()), nil
}

// scenAppend: a trickle DAG and a history of appends to it.
func scenAppend(c *Case) {
	r := c.R
	ic, toks := randImportCfg(r, 60)
	ic.layout = "trickle"
	if ic.ml > 8 && r.Intn(4) > 0 {
		ic.ml = 2 + r.Intn(4)
	}
	if ic.u > 1 {
		ic.u = 1
		ic.size = 1 + r.Intn(4)
	}
	// Deep trees: few direct links, many one-byte leaves, appended to in the
	// middle of nested groups.
	deep := r.Intn(2) == 0
	if deep {
		ic.ml, ic.split, ic.size = 1+r.Intn(3), "size", 1
		toks = (&tokGen{next: r.Intn(250)}).take(r.Intn(60 * ic.ml))
	}
	var pieces []json.RawMessage
	if genOps != nil {
		// Width and sizes of the pieces come from the specification; the
		// first piece is imported or appended to the empty file.
		deep = true
		ic.split, ic.size = "size", 1
		ic.ml, pieces, toks = genInt(genOps[c.N][0]), genOps[c.N][1:], []int{}
		if (c.N+genVariant)%2 == 0 {
			toks = (&tokGen{next: r.Intn(250)}).take(genInt(pieces[0]))
			pieces = pieces[1:]
		}
	}
	s := NewStore()
	g := &tokGen{next: 100}
	var base ipld.Node
	var err error
	spl := &spySplitter{Splitter: ic.splitter(bytes.NewReader(enc(toks, 1))), chunks: &[]int{}, failAt: -1}
	if out := Do(func() { base, err = build(s, ic, spl) }); out != "ok" || err != nil {
		c.Emit("Base", M{"res": "bad", "data": toks})
		return
	}
	m := importFields(ic)
	m["data"], m["res"], m["root"] = toks, "ok", s.ID(base.Cid())
	c.Emit("Base", m)
	c.kind = kindN(ic.ml) + kindN(len(toks))
	n := 1 + r.Intn(5)
	if deep {
		n += r.Intn(4)
	}
	if genOps != nil {
		n = len(pieces)
	}
	for i := 0; i < n; i++ {
		k := 0
		switch r.Intn(5) {
		case 0:
		case 1:
			k = r.Intn(60)
		default:
			k = r.Intn(14)
		}
		if deep {
			k = r.Intn([]int{4, 12, 50}[r.Intn(3)])
		}
		if genOps != nil {
			k = genInt(pieces[i])
		}
		add := g.take(k)
		before := s.ID(base.Cid())
		chunks := []int{}
		sz := 1 + r.Intn(4)
		if deep && (r.Intn(4) > 0 || genOps != nil) {
			sz = 1
		}
		sp := &spySplitter{Splitter: chunker.NewSizeSplitter(&fragReader{d: enc(add, 1), r: r, mode: r.Intn(4), fail: -1}, int64(sz)), chunks: &chunks, failAt: -1}
		f0 := s.nFaults()
		fk := r.Intn(8)
		if genOps != nil {
			fk = -1
		}
		switch fk {
		case 0:
			sp.failAt = r.Intn(6)
			sp.err = sourceErrs[r.Intn(len(sourceErrs))]
		case 1:
			s.failNth(0, 1+r.Intn(5))
		case 2:
			s.failNth(1+r.Intn(3), 0)
		}
		p := &h.DagBuilderParams{Maxlinks: ic.ml, RawLeaves: ic.raw, CidBuilder: ic.cc.b, Dagserv: s}
		// Append works on the node it is given: hand out a copy, as the
		// callers of the library do, or the node itself.
		var nd ipld.Node
		in := base.Copy()
		out := Do(func() {
			var db *h.DagBuilderHelper
			db, err = p.New(sp)
			if err == nil {
				nd, err = trickle.Append(bgctx, in, db)
			}
		})
		fault := sp.failed || s.nFaults() > f0
		s.heal()
		if out == "ok" && err != nil {
			out = "err"
		}
		ev := importFields(ic)
		ev["add"], ev["res"], ev["fault"], ev["before"], ev["csize"] = add, out, fault, before, sz
		ev["got"], ev["tree"], ev["verify"], ev["size"], ev["root"] = []int{}, M{}, "", 0, 0
		if out == "ok" {
			var content []byte
			ev["tree"] = fileTree(s, nd, &content)
			ev["got"] = dec(content, 1)
			var verr error
			if o := Do(func() {
				verr = trickle.VerifyTrickleDagStructure(nd, trickle.VerifyParams{Getter: s, Direct: ic.ml, LayerRepeat: 4, RawLeaves: ic.raw})
			}); o != "ok" {
				verr = errors.New(o)
			}
			ev["verify"] = errStr(verr)
			ev["size"] = -1
			if sz, err := readerSize(s, nd); err == nil {
				ev["size"] = sz
			}
			ev["root"] = s.ID(nd.Cid())
		}
		// The DAG that was appended to is still there, as it was.
		var old []byte
		ev["old"] = []int{-3}
		if o, ok := s.load(s.cids[before-1]); ok {
			fileTree(s, o, &old)
			ev["old"] = dec(old, 1)
		}
		c.kind += kindN(len(chunks))
		c.Emit("Append", ev)
		if out == "hang" {
			c.hung = true
			return
		}
		if out != "ok" {
			continue
		}
		s.Put(nd)
		s.Handed(nd.Cid())
		base = nd
	}
}

// scenNoCopy: imports that reference a file instead of copying it.
func scenNoCopy(c *Case) {
	r := c.R
	ic, toks := randImportCfg(r, 60)
	ic.raw = r.Intn(8) > 0
	ic.deflt = false
	ic.nocopy = r.Intn(8) > 0
	if ic.u > 1 {
		ic.u, ic.size = 1, 3
	}
	data := enc(toks, 1)
	s := NewStore()
	path := "/verif-no-such-file"
	var stat os.FileInfo = &fakeStat{}
	haspath := r.Intn(8) > 0
	var src io.Reader
	frag := &fragReader{d: data, r: r, mode: r.Intn(4), fail: -1}
	if haspath {
		rf, err := files.NewReaderPathFile(path, io.NopCloser(frag), stat)
		must(err)
		src = rf
	} else if r.Intn(2) == 0 {
		src = files.NewReaderFile(io.NopCloser(frag))
	} else {
		src = frag
	}
	chunks := []int{}
	spl := &spySplitter{Splitter: ic.splitter(src), chunks: &chunks, failAt: -1}
	var nd ipld.Node
	var err error
	out := Do(func() { nd, err = build(s, ic, spl) })
	if out == "ok" && err != nil {
		out = "err"
	}
	ev := importFields(ic)
	ev["data"], ev["res"], ev["haspath"], ev["nocopy"] = toks, out, haspath, ic.nocopy
	refs := []M{}
	for _, rf := range s.refList {
		refs = append(refs, M{"off": clampU(rf.off), "len": len(rf.data), "d": dec(rf.data, 1), "path": rf.path == path, "stat": haspath && rf.stat == stat})
	}
	ev["refs"] = refs
	ev["chunks"] = chunks
	ev["nraw"] = 0
	ev["same"] = false
	if out == "ok" {
		var content []byte
		t := fileTree(s, nd, &content)
		ev["nraw"] = countRaw(t)
		ev["got"] = dec(content, 1)
		// An ordinary import of the same bytes.
		ic2 := *ic
		ic2.nocopy = false
		n2, err := build(NewStore(), &ic2, ic2.splitter(bytes.NewReader(data)))
		ev["same"] = err == nil && n2.Cid().Equals(nd.Cid())
		s.Handed(nd.Cid())
	} else {
		ev["got"] = []int{}
	}
	c.kind = ic.layout + ic.split + out + kindN(ic.ml) + kindN(len(chunks))
	c.Emit("NoCopy", ev)
	c.hung = out == "hang"
}

type fakeStat struct{ os.FileInfo }

func countRaw(t M) int {
	n := 0
	if t["k"] == "raw" {
		n = 1
	}
	if cs, ok := t["c"].([]M); ok {
		for _, x := range cs {
			n += countRaw(x)
		}
	}
	return n
}
