// Command drv drives the real go-unixfs code through generated histories and
// records what it observes as NDJSON traces, one event per public call, for the
// TLA+ trace specifications in /verif/spec to accept or reject. It uses only
// the exported API of the packages of the module.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// M is one trace event.
type M = map[string]interface{}

// Case is one history: an independent sequence of events.
type Case struct {
	R    *rand.Rand
	N    int // number of the case, with the seed it identifies the case
	Tier string
	Prop string
	evs  []M
	w    *shard
	kind string // what makes the case different from others (for coverage)
	hung bool

	mu     sync.Mutex
	stores int
}

type shard struct {
	f *os.File
	b *bufio.Writer
	n int
}

// Emit records an event. It is flushed right away, so that the events that
// precede a crash of the process are not lost.
func (c *Case) Emit(ev string, m M) {
	if m == nil {
		m = M{}
	}
	if storeLog && ev != "Broken" {
		return // the stores say what is to be said
	}
	c.write(ev, m)
}

func (c *Case) write(ev string, m M) {
	c.mu.Lock()
	defer c.mu.Unlock()
	m["ev"] = ev
	m["case"] = c.N
	c.evs = append(c.evs, m)
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	c.w.b.Write(b)
	c.w.b.WriteByte('\n')
	c.w.n++
	evCount[ev]++
}

// Begin flushes the trace and notes on disk which operation is about to run.
func (c *Case) flush() { c.w.b.Flush() }

var evCount = map[string]int{}

const hangAfter = 40 * time.Second

var curCase *Case

// Do runs one operation on the real code: "ok" if it returned, "panic" if it
// panicked, "hang" if it didn't return at all.
func Do(f func()) (out string) {
	done := make(chan string, 1)
	var pan interface{}
	var stk []byte
	go func() {
		o := "panic"
		defer func() {
			if o != "ok" {
				pan = recover()
				stk = make([]byte, 1<<13)
				stk = stk[:runtime.Stack(stk, false)]
			}
			done <- o
		}()
		f()
		o = "ok"
	}()
	t := time.NewTimer(hangAfter)
	defer t.Stop()
	select {
	case o := <-done:
		if o == "panic" {
			if s, ok := pan.(harnessError); ok {
				panic(s)
			}
			fmt.Fprintf(os.Stderr, "recovered panic: %v\n%s\n", pan, stk)
		}
		return o
	case <-t.C:
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		fmt.Fprintf(os.Stderr, "operation hangs\n%s\n", b)
		return "hang"
	}
}

type harnessError string

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error()))
	}
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

type scenario func(c *Case)

// runCase runs a case. When the code under test fails where nothing can fail
// (while preparing a case, say), the case ends with an event that no
// specification accepts.
func runCase(sc scenario, c *Case) {
	defer func() {
		if x := recover(); x != nil {
			// The driver itself relies on what earlier operations reported:
			// it can only fail here if one of them reported something wrong.
			s := fmt.Sprint(x)
			fmt.Fprintf(os.Stderr, "case %d can't go on: %s\n%s\n", c.N, s, stack())
			c.Emit("Broken", M{"why": s})
		}
	}()
	sc(c)
}

func stack() []byte {
	b := make([]byte, 1<<13)
	return b[:runtime.Stack(b, false)]
}

var scenarios = map[string]scenario{}

// opsFile, if given, has histories generated from the specification by TLC:
// one JSON array of operations per line.
var genOps [][]json.RawMessage
var genVariant int

func main() {
	name := flag.String("scenario", "", "")
	seed := flag.Int64("seed", 1, "")
	from := flag.Int("from", 0, "")
	count := flag.Int("count", 100, "number of cases")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "output directory")
	tier := flag.String("tier", "quick", "")
	prop := flag.String("prop", "", "")
	ops := flag.String("ops", "", "file with generated histories")
	flag.BoolVar(&storeLog, "store", false, "record what is stored, in which order, and not what is done")
	flag.IntVar(&genVariant, "variant", 0, "how generated histories are replayed")
	flag.Parse()
	sc, ok := scenarios[*name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such scenario", *name)
		os.Exit(5)
	}
	if *ops != "" {
		b, err := os.ReadFile(*ops)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(5)
		}
		for _, l := range bytes.Split(b, []byte("\n")) {
			if len(bytes.TrimSpace(l)) == 0 {
				continue
			}
			var o []json.RawMessage
			if err := json.Unmarshal(l, &o); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(5)
			}
			genOps = append(genOps, o)
		}
		if *count > len(genOps) {
			*count = len(genOps)
		}
	}
	ws := make([]*shard, *shards)
	for i := range ws {
		f, err := os.Create(filepath.Join(*out, fmt.Sprintf("trace_%d.ndjson", i)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(5)
		}
		ws[i] = &shard{f: f, b: bufio.NewWriterSize(f, 1<<16)}
	}
	kinds := map[string]int{}
	var samples []interface{}
	start := time.Now()
	done := 0
	hung := false
	for i := *from; i < *from+*count; i++ {
		c := &Case{R: rand.New(rand.NewSource(*seed*1000003 + int64(i)*7919 + int64(len(*name)))), N: i, Tier: *tier, Prop: *prop, w: ws[i%*shards]}
		curCase = c
		runCase(sc, c)
		done++
		kinds[c.kind]++
		if len(samples) < 3 && len(c.evs) > 0 {
			k := len(c.evs)
			if k > 4 {
				k = 4
			}
			samples = append(samples, c.evs[:k])
		}
		if c.hung {
			hung = true
			break
		}
		if i%50 == 0 {
			c.flush()
		}
	}
	for _, w := range ws {
		w.b.Flush()
		w.f.Close()
	}
	var evs []string
	for k := range evCount {
		evs = append(evs, k)
	}
	sort.Strings(evs)
	sum := M{"cases": done, "events": evCount, "kinds": len(kinds), "samples": samples, "wall_s": time.Since(start).Seconds()}
	b, _ := json.Marshal(sum)
	os.WriteFile(filepath.Join(*out, "summary.json"), b, 0o644)
	fmt.Println(strings.Join(evs, " "))
	if hung {
		os.Exit(3)
	}
}
