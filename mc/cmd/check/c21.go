//go:build sched

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
	"verif/mc/ssync"
)

// C21: concurrent use. This file is built with the race detector, with the
// locks of the code under test replaced by those of a scheduler (ssync).

func init() {
	register(&mc.Check{ID: "C21", Level: "model_checking",
		Rule:        "small programs of two or three goroutines that use the same identifier manager, class, package, map or store-backed object, run on the real code with its locks (sync, sync/atomic, rmx) replaced by those of a controlled scheduler. Every interleaving at lock operations, calls and store accesses is executed, up to a bound on preemptions, under the race detector, which only knows of the code's own synchronization (that of the scheduler is hidden from it); programs without data races have no other behaviours. In each one the results of all calls and the final state must be those of a sequential order of the calls that respects their order in real time, where sequential orders are executed on the same code; there must be no data race, deadlock, endless wait or new panic.",
		Assumptions: []string{"interleavings are explored up to a bound on preemptions and two or three goroutines of one to three calls", "goroutines of the SQL engine are not scheduled (C18, C19)"},
		Items:       c21Items})
}

// sop is a call of a program.
type sop struct {
	name string
	// run makes the call; what it gives is turned into text later: package fmt
	// synchronizes the goroutines that use it
	run func(e *senv) any
	// long calls are preempted once
	long bool
}

type idOf struct{ v any }

func show(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case string:
		return v
	case idOf:
		if v.v == nil {
			return "nil"
		}
		return "\x00" + fmt.Sprint(v.v) + "\x00"
	case []any:
		var r []string
		for _, x := range v {
			r = append(r, show(x))
		}
		return "[" + strings.Join(r, " ") + "]"
	case map[any]any:
		return fmt.Sprint(v)
	case ecore.EOperation:
		return "op:" + v.GetName()
	case ecore.ENamedElement:
		return v.GetName()
	case ecore.EMapEntry:
		return fmt.Sprintf("%v=%v", v.GetKey(), show(v.GetValue()))
	}
	return fmt.Sprint(v)
}

func elems(l ecore.EList) any {
	r := []any{}
	for v := range l.All() {
		r = append(r, v)
	}
	return r
}

// senv is what the goroutines share.
type senv struct {
	m     *mm
	mgr   ecore.EObjectIDManager
	objs  []ecore.EObject
	emap  ecore.EMap
	list  ecore.EList
	store *schedStore
	obj   ecore.EObject
	extra any
	lists []ecore.EList
}

type sshape struct {
	calls []int
	bound int
}

type sfamily struct {
	name   string
	inits  []string
	make   func(init int) *senv
	ops    []sop
	final  func(e *senv) any
	rename bool // identifiers are random
	// shapes: how many calls each goroutine makes, and how many preemptions there are
	shapes  []sshape
	allowed func(init int, prog [][]int) bool
}

var raceLog = func() string {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(o, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}()

// lastRace describes the last data race that was reported.
func lastRace() (key, text string) {
	b, _ := os.ReadFile(raceLog)
	parts := strings.Split(string(b), "==================")
	for i := len(parts) - 1; i >= 0; i-- {
		if !strings.Contains(parts[i], "DATA RACE") {
			continue
		}
		var fns, sides []string
		lines := strings.Split(parts[i], "\n")
		for k := 0; k < len(lines); k++ {
			l := lines[k]
			if !strings.Contains(l, " at 0x") {
				continue
			}
			first := ""
			var stack []string
			for k++; k < len(lines) && strings.TrimSpace(lines[k]) != ""; k++ {
				f := strings.TrimSpace(lines[k])
				if strings.HasPrefix(f, "/") {
					continue
				}
				f = strings.TrimSuffix(f[strings.LastIndex(f, "/")+1:], "()")
				stack = append(stack, f)
				if first == "" && strings.HasPrefix(f, "ecore.") {
					first = f
				}
			}
			fns = append(fns, first)
			sides = append(sides, strings.Fields(strings.TrimSpace(l))[0]+" in "+strings.Join(stack[:min(len(stack), 6)], " < "))
		}
		sort.Strings(fns)
		return "race:" + strings.Join(fns, "+"), strings.Join(sides, "; ")
	}
	return "race", "no report"
}

// renameIDs names identifiers by the order of their first appearance.
func renameIDs(s string) string {
	var b strings.Builder
	seen := map[string]int{}
	for i, p := range strings.Split(s, "\x00") {
		if i%2 == 1 {
			if _, ok := seen[p]; !ok {
				seen[p] = len(seen)
			}
			fmt.Fprintf(&b, "id%d", seen[p])
		} else {
			b.WriteString(p)
		}
	}
	return b.String()
}

type call struct {
	thread, op int // the op-th of a thread
	from, to   int
}

func (f *sfamily) outcome(results [][]any, final any) string {
	var b strings.Builder
	for t, l := range results {
		fmt.Fprintf(&b, "T%d: %s\n", t, show(l))
	}
	b.WriteString("then: " + show(final))
	if f.rename {
		return renameIDs(b.String())
	}
	return b.String()
}

// runOp runs a call; a panic is a result.
func runOp(o sop, e *senv) (res any) {
	defer func() {
		if p := recover(); p != nil {
			if ssync.IsAbort(p) {
				panic(p)
			}
			res = "panic"
		}
	}()
	return o.run(e)
}

// sequential gives the outcome of an order of the calls (thread numbers).
func (f *sfamily) sequential(init int, prog [][]int, order []int) string {
	e := f.make(init)
	results := make([][]any, len(prog))
	at := make([]int, len(prog))
	for _, t := range order {
		results[t] = append(results[t], runOp(f.ops[prog[t][at[t]]], e))
		at[t]++
	}
	return f.outcome(results, f.final(e))
}

var surveyed = map[string]bool{}

// failf reports a violation, or with MC_SURVEY only lists it in a file.
func failf(c *mc.Ctx, key, format string, args ...any) bool {
	if s := os.Getenv("MC_SURVEY"); s != "" {
		if !surveyed[key] {
			surveyed[key] = true
			o, _ := os.OpenFile(s, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			fmt.Fprintf(o, "%s | %s\n", key, strings.ReplaceAll(fmt.Sprintf(format, args...), "\n", " / "))
			o.Close()
		}
		return true
	}
	return c.Failf(key, format, args...)
}

func (f *sfamily) explore(c *mc.Ctx, init, bound int, prog [][]int) bool {
	desc := func() string {
		var l []string
		for _, t := range prog {
			var n []string
			for _, o := range t {
				n = append(n, f.ops[o].name)
			}
			l = append(l, strings.Join(n, "; "))
		}
		s := strings.Join(l, " || ")
		if f.inits[init] != "" {
			s = f.inits[init] + ": " + s
		}
		return s
	}
	c.Beat(desc)
	// all orders of the calls
	var orders [][]int
	var merge func(at []int, order []int)
	merge = func(at []int, order []int) {
		end := true
		for t := range prog {
			if at[t] < len(prog[t]) {
				end = false
				at[t]++
				merge(at, append(order[:len(order):len(order)], t))
				at[t]--
			}
		}
		if end {
			orders = append(orders, order)
		}
	}
	merge(make([]int, len(prog)), nil)
	seq := make([]string, len(orders))
	for i, o := range orders {
		seq[i] = f.sequential(init, prog, o)
	}
	outcomes := map[string]bool{}
	ok := true
	n := enumerate(func(ch *chooser) bool {
		if c.Expired() {
			return false
		}
		c.Beat(desc)
		e := f.make(init)
		results := make([][]any, len(prog))
		calls := make([][]call, len(prog))
		bodies := make([]func(t *ssync.Thread), len(prog))
		for t := range prog {
			bodies[t] = func(*ssync.Thread) {
				for k, o := range prog[t] {
					if k > 0 {
						ssync.Yield()
					}
					from := ssync.Tick()
					r := runOp(f.ops[o], e)
					results[t] = append(results[t], r)
					calls[t] = append(calls[t], call{t, k, from, ssync.Tick()})
				}
			}
		}
		preemptions := 0
		var trace []string
		races := ssync.RaceErrors()
		s := ssync.Run(bodies, 20000, func(enabled []*ssync.Thread, cur *ssync.Thread) *ssync.Thread {
			// the current thread first: going on is no preemption
			if cur != nil {
				if preemptions >= bound {
					return cur
				}
				l := []*ssync.Thread{cur}
				for _, t := range enabled {
					if t != cur {
						l = append(l, t)
					}
				}
				enabled = l
			}
			k := ch.pick(len(enabled))
			if cur != nil && k > 0 {
				preemptions++
			}
			if cur == nil || k > 0 {
				trace = append(trace, fmt.Sprint(enabled[k].ID))
			}
			return enabled[k]
		})
		c.Res.Transitions += int64(s.Steps)
		where := func() string { return desc() + " (schedule " + strings.Join(trace, " ") + ")" }
		if ssync.RaceErrors() != races {
			key, text := lastRace()
			if ok = failf(c, key, "%s: data race: %s", where(), text); !ok {
				return false
			}
		}
		if s.Deadlock || s.Endless {
			what := "deadlock"
			if s.Endless {
				what = "it never ends"
			}
			ok = failf(c, what+":"+f.name, "%s: %s", where(), what)
			return ok
		}
		got := f.outcome(results, f.final(e))
		outcomes[got] = true
		good := false
		for i, o := range orders {
			if seq[i] == got && respects(o, calls) {
				good = true
				break
			}
		}
		if !good {
			ok = failf(c, "order:"+f.name, "%s: no order of the calls gives\n%s\n(one gives\n%s)", where(), got, seq[0])
		}
		return ok
	})
	c.Res.States++
	c.Res.Traces += n
	c.Eval(fmt.Sprint(len(outcomes)))
	return ok
}

// respects tells whether an order keeps calls that ended before others began before them.
func respects(order []int, calls [][]call) bool {
	at := make([]int, len(calls))
	latest := -1
	for _, t := range order {
		x := calls[t][at[t]]
		at[t]++
		// all calls before must not have begun after this one ended
		if latest > x.to {
			return false
		}
		latest = max(latest, x.from)
	}
	return true
}

// programs enumerates the programs of given shapes.
func (f *sfamily) programs(shape []int, bound, init, first int, body func(prog [][]int) bool) {
	total := 0
	for _, n := range shape {
		total += n
	}
	idx := make([]int, total)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == total {
			prog := make([][]int, len(shape))
			p := 0
			for t, n := range shape {
				prog[t] = append([]int{}, idx[p:p+n]...)
				p += n
			}
			// goroutines of the same length are alike
			for t := 1; t < len(shape); t++ {
				if shape[t] == shape[t-1] && fmt.Sprint(pad(prog[t-1])) > fmt.Sprint(pad(prog[t])) {
					return true
				}
			}
			if bound > 1 && slices.ContainsFunc(prog, func(t []int) bool { return slices.ContainsFunc(t, func(o int) bool { return f.ops[o].long }) }) {
				return true
			}
			if f.allowed != nil && !f.allowed(init, prog) {
				return true
			}
			return body(prog)
		}
		lo, hi := 0, len(f.ops)
		if k == 0 {
			lo, hi = first, first+1
		}
		for o := lo; o < hi; o++ {
			idx[k] = o
			if !rec(k + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

func pad(l []int) []string {
	var r []string
	for _, x := range l {
		r = append(r, fmt.Sprintf("%03d", x))
	}
	return r
}

func c21Items(tier string) []mc.Item {
	var items []mc.Item
	for _, f := range schedFamilies(tier == "thorough") {
		for init := range f.inits {
			for _, sh := range f.shapes {
				shape := sh.calls
				for first := range f.ops {
					name := fmt.Sprintf("%s/%s%v-%d/%s", f.name, f.inits[init], shape, sh.bound, f.ops[first].name)
					items = append(items, mc.Item{Name: name, Run: func(c *mc.Ctx) {
						if raceLog == "" {
							panic("no race log")
						}
						os.MkdirAll(filepath.Dir(raceLog), 0o755)
						f.programs(shape, sh.bound, init, first, func(prog [][]int) bool { return !c.Expired() && f.explore(c, init, sh.bound, prog) })
					}})
				}
			}
		}
	}
	return items
}
