package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	posinfo "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	mh "github.com/multiformats/go-multihash"
)

// What injected failures look like: a block that isn't there, a store with
// deadlines of its own or that lost its connection, or anything else.
var injected = []error{errors.New("injected failure"), ipld.ErrNotFound, context.DeadlineExceeded, io.ErrUnexpectedEOF,
	context.Canceled, fmt.Errorf("no block: %w", ipld.ErrNotFound), io.ErrClosedPipe}

// injection picks how the next failure looks; the store must be locked.
func (s *Store) injection() error {
	s.picks++
	return injected[(s.picks+s.pick0)%len(injected)]
}

func isInjected(err error) bool {
	for _, e := range injected {
		if e == err {
			return true
		}
	}
	return false
}

// Store is an in-memory DAGService that keeps encoded blocks only (every Get
// decodes a new node), records what is done to it and can be told to fail.
type Store struct {
	mu     sync.Mutex
	blocks map[string][]byte
	ids    map[string]int
	cids   []cid.Cid
	adds   int
	gets   int
	// Called (with the lock held) before a block is stored / served.
	onAdd func(c cid.Cid, data []byte) error
	onGet func(c cid.Cid) error
	// Called without the lock, may block: order of arrival of GetMany.
	gate     func(ctx context.Context, c cid.Cid) error
	faults   int                  // operations failed so far
	addFails int                  // of them, additions
	swap     map[string]ipld.Node // served instead of what is stored
	swaps    int
	ctxFails int // operations refused because of their context
	refs     map[string]*posinfo.PosInfo
	refList  []refRec
	lax      bool // as stores that look at the context only when they have to wait
	picks    int
	pick0    int
	stuck    map[string]bool // blocks that don't arrive,
	release  chan struct{}   // until this is closed
	waiting  chan struct{}   // told when somebody begins to wait for one
	log      *Case           // gets an event for each block that is stored
	n        int
}

type refRec struct {
	path string
	stat os.FileInfo
	off  uint64
	data []byte
}

func NewStore() *Store {
	s := &Store{blocks: map[string][]byte{}, ids: map[string]int{}}
	if curCase != nil {
		s.pick0 = curCase.N
		s.lax = curCase.N%4 == 1
	}
	if storeLog {
		c := curCase
		c.stores++
		s.log, s.n = c, c.stores
		c.write("Store", M{"s": s.n})
	}
	return s
}

// storeLog: the trace is about the stores of the case and nothing else.
var storeLog bool

// logged records that a block is in the store from now on.
func (s *Store) logged(ev string, c cid.Cid, data []byte) {
	if s.log == nil {
		return
	}
	ks := []int{}
	for _, k := range kids(c, data) {
		ks = append(ks, s.id(k))
	}
	s.log.write(ev, M{"s": s.n, "id": s.id(c), "kids": ks})
}

// Handed records that the root of a file or sharded directory was handed out.
func (s *Store) Handed(c cid.Cid) {
	if s.log != nil {
		s.log.write("Root", M{"s": s.n, "id": s.ID(c)})
	}
}

var _ ipld.DAGService = (*Store)(nil)

// ID gives a small number to a CID.
func (s *Store) ID(c cid.Cid) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.id(c)
}

func (s *Store) id(c cid.Cid) int {
	k := c.KeyString()
	if i, ok := s.ids[k]; ok {
		return i
	}
	i := len(s.ids) + 1
	s.ids[k] = i
	s.cids = append(s.cids, c)
	return i
}

func decodeNode(c cid.Cid, data []byte) (ipld.Node, error) {
	d := make([]byte, len(data))
	copy(d, data)
	b, err := blocks.NewBlockWithCid(d, c)
	if err != nil {
		return nil, err
	}
	switch c.Prefix().Codec {
	case cid.DagProtobuf:
		return dag.DecodeProtobufBlock(b)
	case cid.Raw:
		return dag.DecodeRawBlock(b)
	}
	return nil, fmt.Errorf("unknown codec")
}

func (s *Store) get(c cid.Cid) (ipld.Node, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gets++
	if s.onGet != nil {
		if err := s.onGet(c); err != nil {
			s.faults++
			return nil, err
		}
	}
	return s.served(c)
}

func (s *Store) served(c cid.Cid) (ipld.Node, error) {
	if n, ok := s.swap[c.KeyString()]; ok {
		s.swaps++
		return n.Copy(), nil
	}
	d, ok := s.blocks[c.KeyString()]
	if !ok {
		return nil, ipld.ErrNotFound
	}
	return decodeNode(c, d)
}

// Raw returns the stored bytes (no faults).
func (s *Store) Raw(c cid.Cid) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	d, ok := s.blocks[c.KeyString()]
	return d, ok
}

// Put stores a node bypassing hooks.
func (s *Store) Put(n ipld.Node) {
	s.mu.Lock()
	defer s.mu.Unlock()
	d := n.RawData()
	b := make([]byte, len(d))
	copy(b, d)
	s.blocks[n.Cid().KeyString()] = b
	s.id(n.Cid())
	s.logged("Have", n.Cid(), b)
}

// stick makes blocks not arrive, until unstick.
func (s *Store) stick(set map[string]bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.stuck, s.release, s.waiting = set, make(chan struct{}), make(chan struct{}, 1)
}

func (s *Store) unstick() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.stuck != nil {
		close(s.release)
	}
	s.stuck = nil
}

// arrive waits for a block that is on its way, as long as the context allows.
func (s *Store) arrive(ctx context.Context, c cid.Cid) error {
	s.mu.Lock()
	st, rel, wt := s.stuck[c.KeyString()], s.release, s.waiting
	s.mu.Unlock()
	if !st {
		return nil
	}
	select {
	case wt <- struct{}{}:
	default:
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-rel:
		return nil
	}
}

func (s *Store) isStuck(c cid.Cid) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.stuck[c.KeyString()]
}

func (s *Store) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if err := ctx.Err(); err != nil && !s.lax {
		s.mu.Lock()
		s.ctxFails++
		s.mu.Unlock()
		return nil, err
	}
	if s.gate != nil {
		if err := s.gate(ctx, c); err != nil {
			return nil, err
		}
	}
	if err := s.arrive(ctx, c); err != nil {
		return nil, err
	}
	return s.get(c)
}

func (s *Store) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cs))
	set := cid.NewSet()
	var keys []cid.Cid
	for _, c := range cs {
		if set.Visit(c) {
			keys = append(keys, c)
		}
	}
	if gate := s.gate; gate != nil {
		// Blocks arrive in the order in which the gate lets them through.
		var wg sync.WaitGroup
		for _, c := range keys {
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := gate(ctx, c); err != nil {
					out <- &ipld.NodeOption{Err: err}
					return
				}
				n, err := s.get(c)
				out <- &ipld.NodeOption{Node: n, Err: err}
			}()
		}
		go func() { wg.Wait(); close(out) }()
		return out
	}
	go func() {
		defer close(out)
		// What there is arrives first.
		for i, j := 0, 0; j < len(keys); j++ {
			if !s.isStuck(keys[j]) {
				k := keys[j]
				copy(keys[i+1:j+1], keys[i:j])
				keys[i] = k
				i++
			}
		}
		for _, c := range keys {
			if err := ctx.Err(); err != nil && !s.lax {
				s.mu.Lock()
				s.ctxFails++
				s.mu.Unlock()
				out <- &ipld.NodeOption{Err: err}
				return
			}
			if err := s.arrive(ctx, c); err != nil {
				out <- &ipld.NodeOption{Err: err}
				return
			}
			n, err := s.get(c)
			out <- &ipld.NodeOption{Node: n, Err: err}
			if err != nil {
				return
			}
		}
	}()
	return out
}

func (s *Store) Add(ctx context.Context, n ipld.Node) error {
	if err := ctx.Err(); err != nil && !s.lax {
		return err
	}
	d := n.RawData()
	b := make([]byte, len(d))
	copy(b, d)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.adds++
	if s.onAdd != nil {
		if err := s.onAdd(n.Cid(), b); err != nil {
			s.faults++
			s.addFails++
			return err
		}
	}
	if fn, ok := n.(*posinfo.FilestoreNode); ok {
		if s.refs == nil {
			s.refs = map[string]*posinfo.PosInfo{}
		}
		s.refs[n.Cid().KeyString()] = fn.PosInfo
		s.refList = append(s.refList, refRec{fn.PosInfo.FullPath, fn.PosInfo.Stat, fn.PosInfo.Offset, b})
	}
	s.blocks[n.Cid().KeyString()] = b
	s.id(n.Cid())
	s.logged("Put", n.Cid(), b)
	return nil
}

func (s *Store) AddMany(ctx context.Context, ns []ipld.Node) error {
	for _, n := range ns {
		if err := s.Add(ctx, n); err != nil {
			return err
		}
	}
	return nil
}

func (s *Store) Remove(ctx context.Context, c cid.Cid) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.blocks, c.KeyString())
	if s.log != nil {
		s.log.write("Gone", M{"s": s.n, "id": s.id(c)})
	}
	return nil
}

func (s *Store) RemoveMany(ctx context.Context, cs []cid.Cid) error {
	for _, c := range cs {
		if err := s.Remove(ctx, c); err != nil {
			return err
		}
	}
	return nil
}

// failNth makes the n-th (from 1) access of each kind from now on fail.
func (s *Store) failNth(getN, addN int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	g, a := 0, 0
	fail := s.injection()
	s.onGet, s.onAdd = nil, nil
	if getN > 0 {
		s.onGet = func(cid.Cid) error {
			g++
			if g == getN {
				return fail
			}
			return nil
		}
	}
	if addN > 0 {
		s.onAdd = func(cid.Cid, []byte) error {
			a++
			if a == addN {
				return fail
			}
			return nil
		}
	}
}

// failSome makes a set of blocks unavailable.
func (s *Store) failSome(set map[string]bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	fail := s.injection()
	s.onGet = func(c cid.Cid) error {
		if set[c.KeyString()] {
			return fail
		}
		return nil
	}
}

// calm is the store without the faults meant for somebody else: what a reader
// fetches ahead in the background must not meet them.
type calm struct{ *Store }

func (s calm) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.served(c)
}

func (s calm) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cs))
	set := cid.NewSet()
	for _, c := range cs {
		if set.Visit(c) {
			n, err := s.Get(ctx, c)
			out <- &ipld.NodeOption{Node: n, Err: err}
		}
	}
	close(out)
	return out
}

func (s *Store) heal() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.onGet, s.onAdd = nil, nil
}

func (s *Store) nFaults() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.faults
}

// prefix of a CID as shown in traces.
func pfx(c cid.Cid) []interface{} {
	p := c.Prefix()
	return []interface{}{int(p.Version), int(p.MhType), int(p.Codec & 0xffff)}
}

type cidCfg struct {
	name string
	b    cid.Builder
	ver  int
	mh   int
}

var cidCfgs = []cidCfg{
	{"nil", nil, 0, mh.SHA2_256},
	{"v0", dag.V0CidPrefix(), 0, mh.SHA2_256},
	{"v1", dag.V1CidPrefix(), 1, mh.SHA2_256},
	{"v1-blake2b", cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.BLAKE2B_MIN + 31, MhLength: -1}, 1, mh.BLAKE2B_MIN + 31},
	{"v1-sha512", cid.V1Builder{Codec: cid.DagProtobuf, MhType: mh.SHA2_512}, 1, mh.SHA2_512},
}
