// Package mc is the explicit-state / operation-sequence explorer shared by all
// checks: work items are run in worker processes (so that a crash, a fatal
// runtime error or a hang of the code under test is attributed to one item),
// results are merged, violations are replayed before they are believed, and the
// evidence file is written.
package mc

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Item is one unit of exhaustive work.
type Item struct {
	Name string
	Run  func(c *Ctx)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string // evidence level
	Rule        string
	Assumptions []string
	Items       func(tier string) []Item
	QuickSecs   int // internal deadline (exit 0, exhaustive:false)
	DeepSecs    int
	Workers     int
}

// Viol is one violation.
type Viol struct {
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
	Hist  []int    `json:"hist,omitempty"`
	Item  string   `json:"item"`
}

// Result of one item.
type Result struct {
	Item        string           `json:"item"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Evals       int64            `json:"evals"`
	Distinct    int64            `json:"distinct"`
	MaxDepth    int              `json:"max_depth"`
	Truncated   bool             `json:"truncated"`
	Samples     []string         `json:"samples,omitempty"`
	Viols       []Viol           `json:"viols,omitempty"`
	Known       []Viol           `json:"known,omitempty"`
	Extra       map[string]int64 `json:"extra,omitempty"`
}

// Ctx is handed to an item.
type Ctx struct {
	Tier     string
	Seed     int64
	Only     []int // replay one history
	OnlySet  bool
	known    []string
	Res      Result
	deadline time.Time
	seenKeys map[string]int
	distinct map[string]struct{}
}

var beat atomic.Int64
var beatDesc atomic.Value

// Beat records progress; desc describes what is executing.
func (c *Ctx) Beat(desc func() string) {
	beat.Add(1)
	if desc != nil {
		beatDesc.Store(desc)
	}
}

// Expired tells an item to stop enumerating.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.Res.Truncated = true
		return true
	}
	return false
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

func (c *Ctx) Sample(s string) {
	if len(c.Res.Samples) < 2 {
		c.Res.Samples = append(c.Res.Samples, s)
	}
}

// Eval counts an evaluation; key identifies distinct non-trivial outcomes.
func (c *Ctx) Eval(key string) {
	c.Res.Evals++
	if c.distinct == nil {
		c.distinct = map[string]struct{}{}
	}
	h := sha1.Sum([]byte(key))
	k := string(h[:8])
	if _, ok := c.distinct[k]; !ok {
		c.distinct[k] = struct{}{}
		c.Res.Distinct++
	}
}

func (c *Ctx) Extra(k string, n int64) {
	if c.Res.Extra == nil {
		c.Res.Extra = map[string]int64{}
	}
	c.Res.Extra[k] += n
}

func (c *Ctx) isKnown(key string) bool {
	for _, k := range c.known {
		if k == key {
			return true
		}
	}
	return false
}

// Viol reports a violation; returns true if it is a known finding.
func (c *Ctx) Viol(v Viol) bool {
	v.Item = c.Res.Item
	if len(v.Msg) > 4000 {
		v.Msg = v.Msg[:4000] + "..."
	}
	k := c.isKnown(v.Key)
	if c.seenKeys == nil {
		c.seenKeys = map[string]int{}
	}
	c.seenKeys[v.Key]++
	if c.seenKeys[v.Key] > 1 {
		return k
	}
	if k {
		c.Res.Known = append(c.Res.Known, v)
	} else if len(c.Res.Viols) < 50 {
		c.Res.Viols = append(c.Res.Viols, v)
	}
	return k
}

// Failf is a shorthand.
func (c *Ctx) Failf(key string, format string, args ...any) bool {
	return c.Viol(Viol{Key: key, Msg: fmt.Sprintf(format, args...)})
}

// Panics runs f and returns the panic value (as text, with a short stack) or "".
func Panics(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if r == errHarness {
				panic(r)
			}
			msg = fmt.Sprintf("%v", r)
			if msg == "" {
				msg = "panic"
			}
			lastPCs = lastPCs[:runtime.Callers(3, lastPCs[:cap(lastPCs)])]
		}
	}()
	f()
	return ""
}

var lastPCs = make([]uintptr, 0, 32)
var errHarness = "harness error"

// LastStack of the last recovered panic, trimmed to the interesting frames.
func LastStack() string {
	var out []string
	fr := runtime.CallersFrames(lastPCs)
	for {
		f, more := fr.Next()
		if strings.Contains(f.File, "/repo/") {
			out = append(out, fmt.Sprintf("%s (%s:%d)", f.Function[strings.LastIndexByte(f.Function, '/')+1:], filepath.Base(f.File), f.Line))
			if len(out) == 6 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// Machine is a system under exploration: real objects driven next to a model.
type Machine interface {
	// Enabled reports whether operation op may be applied in the current state.
	Enabled(op int) bool
	// Step applies operation op; check asks for the oracle to be evaluated.
	// A non-nil Viol is a violation of the property.
	Step(op int, check bool) *Viol
	// Key is the canonical form of the current state.
	Key() string
}

// Explore describes a bounded exploration.
type Explore struct {
	Ops       []string // alphabet
	New       func() Machine
	MaxDepth  int
	MaxStates int // cap (0: none); a hit cap is reported as truncated
	// Variety keeps up to this many histories per canonical state that differ
	// in their last operation (hidden implementation state).
	Variety int
	// NoDedup enumerates all histories up to this depth without merging.
	NoDedup int
	// Cont: after a (known) violation the successor is not explored.
	KeyPrefix string
}

func (e *Explore) names(h []int) []string {
	r := make([]string, len(h))
	for i, o := range h {
		r[i] = e.Ops[o]
	}
	return r
}

// step with panic capture; a panic is a violation.
func (e *Explore) step(m Machine, op int, check bool) (v *Viol) {
	p := Panics(func() { v = m.Step(op, check) })
	if p != "" {
		v = &Viol{Key: "panic", Msg: "panic: " + p + " at " + LastStack()}
	}
	return v
}

// Run explores breadth-first: every enabled operation in every reached state.
func (e *Explore) Run(c *Ctx) {
	cur := atomic.Value{}
	cur.Store([]int{})
	desc := func() string { return strings.Join(e.names(cur.Load().([]int)), "; ") }
	c.Beat(desc)
	fail := func(v *Viol, h []int) {
		v.Hist = append([]int{}, h...)
		v.Trace = e.names(h)
		if e.KeyPrefix != "" {
			v.Key = e.KeyPrefix + v.Key
		}
		c.Viol(*v)
	}
	if c.OnlySet {
		m := e.New()
		for i, op := range c.Only {
			if op < 0 || op >= len(e.Ops) || !m.Enabled(op) {
				c.Failf("replay-divergence", "operation %d of the history is not enabled", i)
				return
			}
			if v := e.step(m, op, i == len(c.Only)-1); v != nil {
				fail(v, c.Only[:i+1])
				return
			}
		}
		return
	}
	type node struct{ h []int }
	variety := e.Variety
	if variety < 1 {
		variety = 1
	}
	seen := map[string]int{}
	seenVar := map[string]struct{}{}
	m0 := e.New()
	k0 := m0.Key()
	seen[k0] = 1
	c.Res.States++
	frontier := []node{{nil}}
	failedOps := map[int]int{}
	for depth := 0; depth < e.MaxDepth && len(frontier) > 0; depth++ {
		var next []node
		for _, n := range frontier {
			if c.Expired() {
				return
			}
			var m Machine
			for op := range e.Ops {
				if m == nil {
					m = e.New()
					ok := true
					for _, o := range n.h {
						if v := e.step(m, o, false); v != nil {
							v.Key = "replay-divergence:" + v.Key
							v.Msg = "the same history did not repeat: " + v.Msg
							fail(v, n.h)
							ok = false
							break
						}
					}
					if !ok {
						break
					}
				}
				if !m.Enabled(op) {
					continue
				}
				h := append(append(make([]int, 0, len(n.h)+1), n.h...), op)
				cur.Store(h)
				beat.Add(1)
				v := e.step(m, op, true)
				c.Res.Transitions++
				if len(h) > c.Res.MaxDepth {
					c.Res.MaxDepth = len(h)
				}
				if v != nil {
					fail(v, h)
					failedOps[op]++
					m = nil
					if len(c.Res.Viols) >= 3 {
						return
					}
					continue
				}
				key := m.Key()
				m = nil
				expand := false
				if depth+1 <= e.NoDedup {
					expand = true
					if seen[key] == 0 {
						seen[key] = 1
						c.Res.States++
					}
				} else if seen[key] == 0 {
					seen[key] = 1
					c.Res.States++
					expand = true
				} else if seen[key] < variety {
					vk := key + "\x00" + strconv.Itoa(op)
					if _, ok := seenVar[vk]; !ok {
						seenVar[vk] = struct{}{}
						seen[key]++
						expand = true
					}
				}
				if expand {
					if e.MaxStates > 0 && len(next) >= e.MaxStates {
						c.Res.Truncated = true
					} else {
						next = append(next, node{h})
					}
				}
				if c.Res.Transitions == 50 {
					c.Sample(strings.Join(e.names(h), "; "))
				}
			}
		}
		if len(next) > 0 {
			c.Res.Samples = append(c.Res.Samples[:0:0], strings.Join(e.names(next[len(next)/2].h), "; "))
		}
		frontier = next
	}
}

// ---------------------------------------------------------------------------

type job struct {
	Idx  int   `json:"idx"`
	Only []int `json:"only,omitempty"`
	Set  bool  `json:"set,omitempty"`
}

func workerMain(ck *Check, tier string, known []string, secs int) {
	if p := os.Getenv("MC_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	items := ck.Items(tier)
	in := bufio.NewReader(os.Stdin)
	out := os.NewFile(3, "out")
	debug.SetMaxStack(256 << 20)
	var current atomic.Int64
	current.Store(-1)
	hang := 120 * time.Second
	go func() {
		last, since := int64(-1), time.Now()
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(500 * time.Millisecond)
			metrics.Read(sample)
			if sample[0].Value.Uint64() > 6<<30 {
				fmt.Fprintf(os.Stderr, "MEMORY-EXPLOSION while executing: %s\n", describe())
				os.Exit(98)
			}
			b := beat.Load()
			if current.Load() < 0 || b != last {
				last, since = b, time.Now()
				continue
			}
			if time.Since(since) > hang {
				fmt.Fprintf(os.Stderr, "HANG while executing: %s\n", describe())
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(97)
			}
		}
	}()
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	if s := os.Getenv("MC_DEADLINE"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			deadline = time.UnixMilli(n)
		}
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			return
		}
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		c := &Ctx{Tier: tier, Seed: seed, known: known, deadline: deadline}
		c.Res.Item = items[j.Idx].Name
		c.Only, c.OnlySet = j.Only, j.Set
		beat.Add(1)
		beatDesc.Store(func() string { return "" })
		current.Store(int64(j.Idx))
		if p := Panics(func() { items[j.Idx].Run(c) }); p != "" {
			c.Viol(Viol{Key: "panic:" + items[j.Idx].Name, Msg: "panic: " + p + " at " + LastStack()})
		}
		current.Store(-1)
		b, err := json.Marshal(&c.Res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(96)
		}
		out.Write(append(b, '\n'))
	}
}

func describe() string {
	s := ""
	func() {
		defer func() { recover() }()
		if f, ok := beatDesc.Load().(func() string); ok {
			s = f()
		}
	}()
	return s
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append(t.b[:0:0], append(append([]byte{}, t.b[:16<<10]...), t.b[len(t.b)-32<<10:]...)...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startProc(ck *Check, tier string, deadline time.Time, tmp string) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "-worker", "-tier", tier, ck.ID)
	cmd.ExtraFiles = []*os.File{w}
	cmd.Env = append(os.Environ(), "MC_DEADLINE="+strconv.FormatInt(deadline.UnixMilli(), 10), "TMPDIR="+tmp, "GOMAXPROCS=2", "GOTRACEBACK=single")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	cmd.Stderr = t
	cmd.Stdout = t
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), stderr: t}, nil
}

// run one job; a dead worker yields a synthetic violation.
func (p *proc) run(items []Item, j job) (*Result, bool) {
	b, _ := json.Marshal(j)
	p.in.Write(append(b, '\n'))
	line, err := p.out.ReadBytes('\n')
	if err == nil {
		var res Result
		if json.Unmarshal(line, &res) == nil {
			return &res, true
		}
	}
	p.in.Close()
	werr := p.cmd.Wait()
	st := p.stderr.String()
	kind := "crash"
	if strings.Contains(st, "HANG while executing") {
		kind = "hang"
	} else if strings.Contains(st, "MEMORY-EXPLOSION") {
		kind = "memory"
	} else if strings.Contains(st, "stack overflow") || strings.Contains(st, "exceeds 256") {
		kind = "stack-overflow"
	} else if strings.Contains(st, "concurrent map") {
		kind = "concurrent-map"
	}
	if kind == "stack-overflow" {
		// the functions only
		var names []string
		seen := map[string]bool{}
		for _, l := range strings.Split(st, "\n") {
			if i := strings.LastIndex(l, "("); i > 0 && l[0] != '\t' && !seen[l[:i]] && len(names) < 60 {
				seen[l[:i]] = true
				names = append(names, l[:i])
			}
		}
		st = strings.Join(names, "\n")
	} else if len(st) > 3000 {
		st = st[:1800] + "\n...\n" + st[len(st)-1000:]
	}
	return &Result{Item: items[j.Idx].Name, Viols: []Viol{{Key: kind + ":" + items[j.Idx].Name, Item: items[j.Idx].Name,
		Msg: fmt.Sprintf("worker ended (%v) while running the item:\n%s", werr, st), Hist: j.Only}}}, false
}

func (p *proc) stop() { p.in.Close(); p.cmd.Wait() }

// KnownFile is the committed list of known findings.
func knownKeys(root, id string) []string {
	var keys []string
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		if i := strings.Index(l, "key=["); i >= 0 {
			if j := strings.Index(l[i:], "]"); j > 0 {
				keys = append(keys, l[i+5:i+j])
			}
		}
	}
	return keys
}

// Main entry point.
func Main(checks []*Check) {
	worker := flag.Bool("worker", false, "")
	tier := flag.String("tier", "quick", "")
	root := flag.String("root", os.Getenv("MC_ROOT"), "")
	replay := flag.String("replay", "", "replay an artefact")
	only := flag.String("item", "", "only items whose name contains this")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *root == "" {
		*root = "/verif"
	}
	id := flag.Arg(0)
	var ck *Check
	for _, c := range checks {
		if c.ID == id {
			ck = c
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	known := knownKeys(*root, id)
	secs := ck.QuickSecs
	if secs == 0 {
		secs = 150
	}
	if *tier == "thorough" {
		secs = ck.DeepSecs
		if secs == 0 {
			secs = 600
		}
	}
	if *worker {
		os.Setenv("MC_ROOT", *root)
		workerMain(ck, *tier, known, secs)
		return
	}
	os.Setenv("MC_ROOT", *root)
	items := ck.Items(*tier)
	if *list {
		for _, it := range items {
			fmt.Println(it.Name)
		}
		return
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 0
	if *replay != "" {
		code = doReplay(ck, *tier, items, *replay, tmp)
	} else {
		code = doCheck(ck, *tier, *root, items, *only, secs, tmp, known)
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func doReplay(ck *Check, tier string, items []Item, file string, tmp string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i, it := range items {
		if it.Name != v.Item {
			continue
		}
		p, err := startProc(ck, tier, time.Now().Add(10*time.Minute), tmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		res, ok := p.run(items, job{Idx: i, Only: v.Hist, Set: v.Hist != nil})
		if ok {
			p.stop()
		}
		for _, w := range append(res.Viols, res.Known...) {
			fmt.Printf("key=%s\n%s\ntrace: %s\n", w.Key, w.Msg, strings.Join(w.Trace, "; "))
		}
		if len(res.Viols)+len(res.Known) > 0 {
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such item", v.Item)
	return 2
}

func doCheck(ck *Check, tier, root string, items []Item, only string, secs int, tmp string, known []string) int {
	start := time.Now()
	deadline := start.Add(time.Duration(secs) * time.Second)
	nw := ck.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if nw > len(items) {
		nw = len(items)
	}
	jobs := make(chan int)
	results := make([]*Result, len(items))
	idx := map[string]int{}
	for i, it := range items {
		if _, dup := idx[it.Name]; dup {
			fmt.Fprintln(os.Stderr, "duplicate item", it.Name)
			return 2
		}
		idx[it.Name] = i
	}
	var wg sync.WaitGroup
	var nviol atomic.Int64
	harnessErr := atomic.Bool{}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for i := range jobs {
				if nviol.Load() >= 8 || time.Now().After(deadline.Add(5*time.Second)) {
					results[i] = &Result{Item: items[i].Name, Truncated: true}
					continue
				}
				if p == nil {
					var err error
					if p, err = startProc(ck, tier, deadline, tmp); err != nil {
						fmt.Fprintln(os.Stderr, err)
						harnessErr.Store(true)
						continue
					}
				}
				t0 := time.Now()
				res, ok := p.run(items, job{Idx: i})
				if os.Getenv("MC_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%-60s %8d states %9d trans %6d traces %7d evals %d viols %d known trunc=%v %.1fs\n", res.Item, res.States, res.Transitions, res.Traces, res.Evals, len(res.Viols), len(res.Known), res.Truncated, time.Since(t0).Seconds())
				}
				if !ok {
					p = nil
					for k := range res.Viols {
						for _, kk := range known {
							if kk == res.Viols[k].Key {
								res.Known = append(res.Known, res.Viols[k])
							}
						}
					}
					if len(res.Known) > 0 {
						res.Viols = nil
					}
				}
				nviol.Add(int64(len(res.Viols)))
				results[i] = res
			}
			if p != nil {
				p.stop()
			}
		}()
	}
	for i := range items {
		if only != "" && !strings.Contains(items[i].Name, only) {
			continue
		}
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	if harnessErr.Load() {
		return 2
	}
	// merge
	tot := Result{Extra: map[string]int64{}}
	var viols, knownViols []Viol
	perItem := map[string]string{}
	completed := 0
	for _, r := range results {
		if r == nil {
			continue
		}
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Evals += r.Evals
		tot.Distinct += r.Distinct
		if r.MaxDepth > tot.MaxDepth {
			tot.MaxDepth = r.MaxDepth
		}
		tot.Truncated = tot.Truncated || r.Truncated
		if !r.Truncated {
			completed++
		}
		for k, v := range r.Extra {
			tot.Extra[k] += v
		}
		for _, s := range r.Samples {
			if len(tot.Samples) < 12 {
				tot.Samples = append(tot.Samples, r.Item+": "+s)
			}
		}
		if len(perItem) < 400 {
			perItem[r.Item] = fmt.Sprintf("states=%d transitions=%d traces=%d evaluations=%d depth=%d truncated=%v", r.States, r.Transitions, r.Traces, r.Evals, r.MaxDepth, r.Truncated)
		}
		viols = append(viols, r.Viols...)
		knownViols = append(knownViols, r.Known...)
	}
	// confirm violations in fresh processes before believing them
	confirmed := []Viol{}
	seen := map[string]bool{}
	unconfirmed := []string{}
	confirmStart := time.Now()
	for _, v := range viols {
		if seen[v.Key] || len(confirmed) >= 3 {
			continue
		}
		if len(confirmed) > 0 && time.Since(confirmStart) > 200*time.Second {
			break
		}
		seen[v.Key] = true
		runs := 5
		repro := 0
		isHang := strings.HasPrefix(v.Key, "hang:")
		if isHang {
			runs = 1
		}
		t0 := time.Now()
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan struct{}, 5)
		for k := 0; k < runs; k++ {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				p, err := startProc(ck, tier, time.Now().Add(300*time.Second), tmp)
				if err != nil {
					return
				}
				res, ok := p.run(items, job{Idx: idx[v.Item], Only: v.Hist, Set: v.Hist != nil})
				if ok {
					p.stop()
				}
				for _, w := range res.Viols {
					if w.Key == v.Key {
						mu.Lock()
						repro++
						mu.Unlock()
						break
					}
				}
			}()
		}
		wg.Wait()
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "confirm %s: %d/%d in %.1fs\n", v.Key, repro, runs, time.Since(t0).Seconds())
		}
		if repro == runs {
			confirmed = append(confirmed, v)
		} else {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s (%d/%d)", v.Key, repro, runs))
			fmt.Fprintf(os.Stderr, "UNCONFIRMED %s: %d/%d replays: %s\n", v.Key, repro, runs, v.Msg)
		}
	}
	// known findings
	kseen := map[string]bool{}
	for _, v := range knownViols {
		if !kseen[v.Key] {
			kseen[v.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s key=[%s] %s\n", ck.ID, v.Key, firstLine(v.Msg))
		}
	}
	code := 0
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	for _, v := range confirmed {
		h := sha1.Sum([]byte(v.Key + v.Item))
		path := filepath.Join(root, "replays", ck.ID+"-"+hex.EncodeToString(h[:5])+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "key": v.Key, "msg": v.Msg, "trace": v.Trace, "hist": v.Hist, "item": v.Item, "tier": tier,
			"replay": fmt.Sprintf("bash %s/run.sh %s %s -replay %s", root, ck.ID, tier, path)}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		fmt.Printf("  key=[%s] item=%s\n  %s\n", v.Key, v.Item, v.Msg)
		if len(v.Trace) > 0 {
			fmt.Printf("  trace: %s\n", strings.Join(v.Trace, "; "))
		}
		code = 1
	}
	// evidence
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{"exhaustive": !tot.Truncated, "samples": tot.Samples, "work_items": len(items), "items_completed": completed, "max_depth": tot.MaxDepth, "per_item": perItem, "rule": ck.Rule}
	if ck.Level == "model_checking" {
		cov["states"] = tot.States
		cov["transitions"] = tot.Transitions
		cov["traces_validated_against_impl"] = tot.Traces
		if tot.Evals > 0 {
			cov["evaluations"] = tot.Evals
			cov["distinct_nontrivial"] = tot.Distinct
		}
	} else {
		cov["evaluations"] = tot.Evals
		cov["distinct_nontrivial"] = tot.Distinct
		if tot.States > 0 {
			cov["states"] = tot.States
			cov["transitions"] = tot.Transitions
		}
		if tot.Traces > 0 {
			cov["traces_validated_against_impl"] = tot.Traces
		}
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	for k, v := range tot.Extra {
		cov[k] = v
	}
	if len(kseen) > 0 {
		ks := []string{}
		for k := range kseen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings"] = ks
	}
	ev := map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(confirmed)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: items=%d/%d states=%d transitions=%d traces=%d evaluations=%d depth=%d exhaustive=%v violations=%d known=%d wall=%.1fs\n",
		ck.ID, tier, completed, len(items), tot.States, tot.Transitions, tot.Traces, tot.Evals, tot.MaxDepth, !tot.Truncated, len(confirmed), len(kseen), time.Since(start).Seconds())
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
