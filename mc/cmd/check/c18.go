package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"verif/mc/mc"
)

// C18: objects in an SQL store.

// sqlObj is an object that knows its identifier in the store and its store, and
// keeps nothing itself.
type sqlObj struct {
	ecore.DynamicEObjectImpl
	id    int64
	store ecore.EStore
}

func newSQLObj(c ecore.EClass) *sqlObj {
	o := new(sqlObj)
	o.SetInterfaces(o)
	o.Initialize()
	o.SetEClass(c)
	return o
}

func (o *sqlObj) SetSQLID(id int64)        { o.id = id }
func (o *sqlObj) GetSQLID() int64          { return o.id }
func (o *sqlObj) SetEStore(s ecore.EStore) { o.store = s }
func (o *sqlObj) GetEStore() ecore.EStore  { return o.store }

type sqlFactory struct {
	ecore.EFactoryExt
	make func(c ecore.EClass) ecore.EObject
}

func newSQLFactory(mk func(c ecore.EClass) ecore.EObject) *sqlFactory {
	f := new(sqlFactory)
	f.SetInterfaces(f)
	f.Initialize()
	f.make = mk
	return f
}

func (f *sqlFactory) Create(c ecore.EClass) ecore.EObject { return f.make(c) }

// errCore collects what the store logs as an error.
type errCore struct {
	mu   sync.Mutex
	msgs []string
}

func (e *errCore) Enabled(l zapcore.Level) bool        { return l >= zapcore.WarnLevel }
func (e *errCore) With(fs []zapcore.Field) zapcore.Core { return e }
func (e *errCore) Check(en zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if e.Enabled(en.Level) {
		return ce.AddCore(en, e)
	}
	return ce
}
func (e *errCore) Write(en zapcore.Entry, fs []zapcore.Field) error {
	m := en.Message
	for _, f := range fs {
		if err, _ := f.Interface.(error); err != nil {
			m += ": " + err.Error()
		}
	}
	e.mu.Lock()
	e.msgs = append(e.msgs, m)
	e.mu.Unlock()
	return nil
}
func (e *errCore) Sync() error { return nil }
func (e *errCore) take() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	s := strings.Join(e.msgs, "; ")
	e.msgs = nil
	return s
}

// gateIDs is an identifier manager that can hold back the operations of the
// store on an object.
type gateIDs struct {
	mu   sync.Mutex
	cond *sync.Cond
	held bool
	pkg  map[ecore.EPackage]int64
	cls  map[ecore.EClass]int64
	lit  map[ecore.EEnumLiteral]int64
	obj  map[ecore.EObject]int64
	rpkg map[int64]ecore.EPackage
	rcls map[int64]ecore.EClass
	rlit map[int64]ecore.EEnumLiteral
	robj map[int64]ecore.EObject
}

func newGateIDs() *gateIDs {
	g := &gateIDs{pkg: map[ecore.EPackage]int64{}, cls: map[ecore.EClass]int64{}, lit: map[ecore.EEnumLiteral]int64{}, obj: map[ecore.EObject]int64{},
		rpkg: map[int64]ecore.EPackage{}, rcls: map[int64]ecore.EClass{}, rlit: map[int64]ecore.EEnumLiteral{}, robj: map[int64]ecore.EObject{}}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gateIDs) hold(b bool) {
	g.mu.Lock()
	g.held = b
	g.cond.Broadcast()
	g.mu.Unlock()
}

func gset[K comparable](g *gateIDs, m map[K]int64, r map[int64]K, k K, id int64) {
	g.mu.Lock()
	m[k], r[id] = id, k
	g.mu.Unlock()
}
func gget[K comparable, V any](g *gateIDs, m map[K]V, k K) (V, bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	v, ok := m[k]
	return v, ok
}
func (g *gateIDs) SetPackageID(p ecore.EPackage, id int64)                { gset(g, g.pkg, g.rpkg, p, id) }
func (g *gateIDs) SetClassID(c ecore.EClass, id int64)                    { gset(g, g.cls, g.rcls, c, id) }
func (g *gateIDs) SetEnumLiteralID(l ecore.EEnumLiteral, id int64)        { gset(g, g.lit, g.rlit, l, id) }
func (g *gateIDs) SetObjectID(o ecore.EObject, id int64)                  { gset(g, g.obj, g.robj, o, id) }
func (g *gateIDs) GetPackageFromID(id int64) (ecore.EPackage, bool)       { return gget(g, g.rpkg, id) }
func (g *gateIDs) GetClassFromID(id int64) (ecore.EClass, bool)           { return gget(g, g.rcls, id) }
func (g *gateIDs) GetEnumLiteralFromID(i int64) (ecore.EEnumLiteral, bool) { return gget(g, g.rlit, i) }
func (g *gateIDs) GetObjectFromID(id int64) (ecore.EObject, bool)         { return gget(g, g.robj, id) }
func (g *gateIDs) GetPackageID(p ecore.EPackage) (int64, bool)            { return gget(g, g.pkg, p) }
func (g *gateIDs) GetClassID(c ecore.EClass) (int64, bool)                { return gget(g, g.cls, c) }
func (g *gateIDs) GetEnumLiteralID(l ecore.EEnumLiteral) (int64, bool)    { return gget(g, g.lit, l) }
func (g *gateIDs) GetObjectID(o ecore.EObject) (int64, bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for g.held {
		g.cond.Wait()
	}
	id, ok := g.obj[o]
	return id, ok
}
func (g *gateIDs) ClearObjectID(o ecore.EObject) {
	g.mu.Lock()
	delete(g.robj, g.obj[o])
	delete(g.obj, o)
	g.mu.Unlock()
}

// sqlWorld is a store and what it should hold.
type sqlWorld struct {
	dir  string
	path string
	m    *mm
	reg  ecore.EPackageRegistry
	st   *ecore.SQLStore
	mem  *memStore
	errs *errCore
	ids  *gateIDs
	opts map[string]any
}

func storeMM() *mm {
	return newMM("http://store", []cspec{{name: "N", feats: []fspec{
		{name: "k", typ: "string"},
		{name: "s", typ: "string"},
		{name: "i", typ: "int"},
		{name: "b", typ: "bool"},
		{name: "f", typ: "float64"},
		{name: "l", typ: "int64"},
		{name: "sh", typ: "int16"},
		{name: "by", typ: "byte"},
		{name: "f32", typ: "float32"},
		{name: "ch", typ: "char"},
		{name: "d", typ: "date"},
		{name: "sd", typ: "string", def: "dd"},
		{name: "id", typ: "int", def: "7"},
		{name: "bd", typ: "bool", def: "true"},
		{name: "su", typ: "string", unsettable: true},
		{name: "iu", typ: "int", unsettable: true},
		{name: "r", typ: "N", ref: true},
		{name: "c", typ: "N", ref: true, cont: true},
		{name: "ss", typ: "string", many: true, nonUnique: true},
		{name: "is", typ: "int", many: true, nonUnique: true},
		{name: "rs", typ: "N", ref: true, many: true, nonUnique: true},
		{name: "cs", typ: "N", ref: true, cont: true, many: true},
		{name: "as", typ: "N", ref: true, cont: true, many: true},
	}}})
}

func newSQLWorld(form string) *sqlWorld {
	w := &sqlWorld{m: storeMM(), errs: &errCore{}, mem: newMemStore()}
	w.m.pkg.SetEFactoryInstance(newSQLFactory(func(c ecore.EClass) ecore.EObject { return newSQLObj(c) }))
	w.reg = ecore.NewEPackageRegistryImpl()
	w.reg.RegisterPackage(w.m.pkg)
	dir, err := os.MkdirTemp("", "verif-c18-")
	if err != nil {
		panic(err)
	}
	w.dir = dir
	w.path = filepath.Join(dir, filepath.Base(dir)+".sqlite")
	w.opts = map[string]any{
		ecore.SQL_OPTION_LOGGER:            zap.New(w.errs),
		ecore.SQL_OPTION_OPERATION_TIMEOUT: 20 * time.Second,
	}
	if strings.HasPrefix(form, "memory") {
		w.opts[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = true
	}
	if strings.HasSuffix(form, "held") {
		w.ids = newGateIDs()
		w.opts[ecore.SQL_OPTION_SQL_ID_MANAGER] = w.ids
	}
	w.open()
	return w
}

func (w *sqlWorld) open() {
	st, err := ecore.NewSQLStore(w.path, ecore.NewURI("store.sqlite"), nil, w.reg, w.opts)
	if err != nil {
		panic(err)
	}
	w.st = st
}

func (w *sqlWorld) done() {
	if w.st != nil {
		w.st.Close()
	}
	os.RemoveAll(w.dir)
}

// root makes an object that is a root of the store.
func (w *sqlWorld) root(key string) ecore.EObject {
	o := newSQLObj(w.m.c("N"))
	w.both(func(s ecore.EStore) any { s.AddRoot(o); return nil })
	if key != "" {
		w.both(func(s ecore.EStore) any { s.Set(o, w.m.f("N.k"), -1, key, false); return nil })
	}
	return o
}

func (w *sqlWorld) both(op func(s ecore.EStore) any) (got, want any) {
	return op(w.st), op(w.mem)
}

func (w *sqlWorld) wait() string {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if err := w.st.WaitOperations(ctx, nil); err != nil {
		return "waiting for the operations: " + err.Error()
	}
	return ""
}

func tell(v any) string {
	switch x := v.(type) {
	case []any:
		s := make([]string, len(x))
		for i := range x {
			s[i] = tell(x[i])
		}
		return "[" + strings.Join(s, " ") + "]"
	case ecore.EObject:
		return fmt.Sprintf("object %p", x)
	case *time.Time:
		return "time " + x.UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%T %#v", v, v)
}

// unset: for a feature without value a store may tell nothing or the default value.
func unset(f ecore.EStructuralFeature, v any) any {
	if v == nil && !f.IsMany() {
		return f.GetDefaultValue()
	}
	return v
}

// compare compares everything the two stores tell about a feature.
func (w *sqlWorld) compare(o ecore.EObject, f ecore.EStructuralFeature, vals []any) string {
	bad := ""
	q := func(name string, op func(s ecore.EStore) any) {
		if bad == "" {
			if got, want := w.both(op); tell(got) != tell(want) {
				bad = fmt.Sprintf("%s is %s, expected %s", name, tell(got), tell(want))
			}
		}
	}
	if !f.IsMany() {
		q("Get", func(s ecore.EStore) any { return unset(f, s.Get(o, f, -1)) })
		q("IsSet", func(s ecore.EStore) any { return s.IsSet(o, f) })
		return bad
	}
	q("ToArray", func(s ecore.EStore) any { return s.ToArray(o, f) })
	n := w.mem.Size(o, f)
	q("Size", func(s ecore.EStore) any { return s.Size(o, f) })
	q("IsEmpty", func(s ecore.EStore) any { return s.IsEmpty(o, f) })
	q("IsSet", func(s ecore.EStore) any { return s.IsSet(o, f) })
	for i := range n {
		q(fmt.Sprintf("Get(%d)", i), func(s ecore.EStore) any { return s.Get(o, f, i) })
	}
	for _, v := range vals {
		q("Contains", func(s ecore.EStore) any { return s.Contains(o, f, v) })
		q("IndexOf", func(s ecore.EStore) any { return s.IndexOf(o, f, v) })
		q("LastIndexOf", func(s ecore.EStore) any { return s.LastIndexOf(o, f, v) })
	}
	q("first of All", func(s ecore.EStore) any {
		for v := range s.All(o, f) {
			return v
		}
		return nil
	})
	return bad
}

// storeOp is one call of the store on a feature.
type storeOp struct {
	name string
	ok   func(n int) bool
	run  func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any
	dn   func(n int) int
}

func manyOps(vals []any, max int) (ops []storeOp) {
	add := func(name string, ok func(n int) bool, dn func(n int) int, run func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any) {
		ops = append(ops, storeOp{name, ok, run, dn})
	}
	inc := func(k int) func(n int) int { return func(n int) int { return n + k } }
	vn := func(v int) string { return string(rune('a' + v)) }
	for i := 0; i <= max; i++ {
		for v := range vals {
			add(fmt.Sprintf("Add(%d,%s)", i, vn(v)), func(n int) bool { return i <= n && n < max }, inc(1), func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any {
				s.Add(o, f, i, vals[v])
				return nil
			})
			if i < max {
				for _, need := range []bool{false, true} {
					add(fmt.Sprintf("Set(%d,%s,%v)", i, vn(v), need), func(n int) bool { return i < n }, inc(0), func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any {
						if r := s.Set(o, f, i, vals[v], need); need {
							return r
						}
						return nil
					})
				}
			}
		}
		for _, c := range [][]int{{0, 1}, {1, 0, 1}} {
			add(fmt.Sprintf("AddAll(%d,%v)", i, c), func(n int) bool { return i <= n && n+len(c) <= max }, inc(len(c)), func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any {
				var l []any
				for _, v := range c {
					l = append(l, vals[v])
				}
				s.AddAll(o, f, i, ecore.NewImmutableEList(l))
				return nil
			})
		}
		if i < max {
			for _, need := range []bool{false, true} {
				add(fmt.Sprintf("Remove(%d,%v)", i, need), func(n int) bool { return i < n }, inc(-1), func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any {
					if r := s.Remove(o, f, i, need); need {
						return r
					}
					return nil
				})
			}
			for j := range max {
				add(fmt.Sprintf("Move(%d,%d)", i, j), func(n int) bool { return i < n && j < n }, inc(0), func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any {
					return s.Move(o, f, i, j, true)
				})
			}
		}
	}
	zero := func(n int) int { return 0 }
	any_ := func(n int) bool { return true }
	add("Clear", any_, zero, func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any { s.Clear(o, f); return nil })
	add("UnSet", any_, zero, func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any { s.UnSet(o, f); return nil })
	return
}

func singleOps(vals []any) (ops []storeOp) {
	any_ := func(n int) bool { return true }
	same := func(n int) int { return n }
	for v := range vals {
		for _, need := range []bool{false, true} {
			ops = append(ops, storeOp{fmt.Sprintf("Set(%s,%v)", tell(vals[v]), need), any_, func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any {
				if r := s.Set(o, f, -1, vals[v], need); need {
					return r
				}
				return nil
			}, same})
		}
	}
	ops = append(ops, storeOp{"UnSet", any_, func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any { s.UnSet(o, f); return nil }, same})
	ops = append(ops, storeOp{"Get", any_, func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any { return s.Get(o, f, -1) }, same})
	ops = append(ops, storeOp{"IsSet", any_, func(s ecore.EStore, o ecore.EObject, f ecore.EStructuralFeature) any { return s.IsSet(o, f) }, same})
	return
}

const storeBatch = 400

// storeHistories runs every history of the operations up to a depth, each on an
// object of its own; after every batch the store is closed and opened again.
func storeHistories(c *mc.Ctx, key, form, feature string, vals func(w *sqlWorld) []any, ops func(vals []any) []storeOp, depth int, first func(i int) bool) {
	w := newSQLWorld(form)
	defer func() { w.done() }()
	f := w.m.f("N." + feature)
	vs := vals(w)
	al := ops(vs)
	type obj struct {
		o   ecore.EObject
		key string
		h   string
	}
	var objs []obj
	stop := false
	flush := func() {
		if len(objs) == 0 {
			return
		}
		if bad := w.reopened(f, func(f2 func(key, h string, o ecore.EObject)) {
			for _, o := range objs {
				f2(o.key, o.h, o.o)
			}
		}); bad != "" {
			if !c.Failf(key, "%s: %s", form, bad) {
				stop = true
			}
		}
		w.done()
		w = newSQLWorld(form)
		f = w.m.f("N." + feature)
		vs = vals(w)
		al = ops(vs)
		objs = nil
	}
	run := func(h []int) {
		names := make([]string, len(h))
		for i, x := range h {
			names[i] = al[x].name
		}
		hist := strings.Join(names, " ")
		c.Beat(func() string { return form + " " + hist })
		o := w.root(fmt.Sprintf("k%d", len(objs)))
		bad := ""
		for n, x := range h {
			held := w.ids != nil && n == len(h)-1
			if held {
				w.ids.hold(true)
				time.AfterFunc(300*time.Microsecond, func() { w.ids.hold(false) })
			}
			if got, want := w.both(func(s ecore.EStore) any { return unset(f, al[x].run(s, o, f)) }); tell(got) != tell(want) {
				bad = fmt.Sprintf("%s returns %s, expected %s", al[x].name, tell(got), tell(want))
				break
			}
			c.Res.Transitions++
		}
		if bad == "" {
			bad = w.compare(o, f, vs)
		}
		if bad == "" && !f.IsMany() {
			// again, with nothing under way
			if bad = w.wait(); bad == "" {
				if bad = w.compare(o, f, vs); bad != "" {
					bad = "after the operations have ended: " + bad
				}
			}
		}
		if w.ids != nil {
			w.ids.hold(false)
		}
		if e := w.errs.take(); bad == "" && e != "" {
			bad = "error: " + e
		}
		c.Res.States++
		c.Res.Traces++
		c.Eval(hist)
		if c.Res.MaxDepth < len(h) {
			c.Res.MaxDepth = len(h)
		}
		if bad != "" && !c.Failf(key, "%s, feature %s, %s: %s", form, feature, hist, bad) {
			stop = true
		}
		objs = append(objs, obj{o, fmt.Sprintf("k%d", len(objs)), hist})
		if len(objs) >= storeBatch {
			flush()
		}
	}
	var rec func(h []int, n int)
	rec = func(h []int, n int) {
		if stop || c.Expired() {
			return
		}
		if len(h) > 0 {
			run(h)
		}
		if len(h) == depth {
			return
		}
		for i := range al {
			if al[i].ok(n) && (len(h) > 0 || first == nil || first(i)) {
				rec(append(append([]int{}, h...), i), al[i].dn(n))
			}
		}
	}
	rec(nil, 0)
	if !stop {
		flush()
	}
}

// reopened closes the store and looks at what the database holds.
func (w *sqlWorld) reopened(f ecore.EStructuralFeature, each func(func(key, h string, o ecore.EObject))) (bad string) {
	if bad := w.wait(); bad != "" {
		return bad
	}
	keyOf := func(s ecore.EStore, v any) string {
		if x, _ := v.(ecore.EObject); x != nil {
			return "object " + fmt.Sprint(s.Get(x, w.m.f("N.k"), -1))
		}
		return tell(v)
	}
	text := func(s ecore.EStore, o ecore.EObject) string {
		if !f.IsMany() {
			return fmt.Sprintf("%s set %v", keyOf(s, unset(f, s.Get(o, f, -1))), s.IsSet(o, f))
		}
		var l []string
		for _, v := range s.ToArray(o, f) {
			l = append(l, keyOf(s, v))
		}
		return strings.Join(l, ",")
	}
	if err := w.st.Close(); err != nil {
		return "closing the store: " + err.Error()
	}
	if e := w.errs.take(); e != "" {
		return "closing the store: " + e
	}
	if w.ids != nil {
		w.ids = newGateIDs()
		w.opts[ecore.SQL_OPTION_SQL_ID_MANAGER] = w.ids
	}
	w.open()
	roots := map[string]ecore.EObject{}
	l := w.st.GetRoots()
	for _, o := range l {
		roots[fmt.Sprint(w.st.Get(o, w.m.f("N.k"), -1))] = o
	}
	if len(l) != len(w.mem.roots) || len(roots) != len(l) {
		return fmt.Sprintf("opened again, the store has %d roots (%d keys), expected %d (%s)", len(l), len(roots), len(w.mem.roots), w.errs.take())
	}
	each(func(key, h string, o ecore.EObject) {
		if bad != "" {
			return
		}
		o2 := roots[key]
		if o2 == nil {
			bad = "opened again, the store has no object " + key
			return
		}
		if got, want := text(w.st, o2), text(w.mem, o); got != want {
			bad = fmt.Sprintf("%s; opened again, feature %s is %s, expected %s", h, f.GetName(), got, want)
		}
	})
	if e := w.errs.take(); bad == "" && e != "" {
		bad = "opened again: " + e
	}
	return
}

// storeLong runs every history made of one pair of operations, again and again.
func storeLong(c *mc.Ctx, form, feature string, times int, first int) {
	w := newSQLWorld(form)
	defer func() { w.done() }()
	f := w.m.f("N." + feature)
	vs := []any{"x", "y"}
	if feature == "is" {
		vs = []any{1, 2}
	}
	al := manyOps(vs, 3)
	// positions from the end
	type lop struct {
		name string
		run  func(s ecore.EStore, o ecore.EObject, n int) int
	}
	var ops []lop
	for _, at := range []int{0, 1, -2, -1} {
		pos := func(n int) int {
			if at < 0 {
				return max(0, n+1+at)
			}
			return min(at, n)
		}
		ops = append(ops, lop{fmt.Sprintf("Add(%d)", at), func(s ecore.EStore, o ecore.EObject, n int) int {
			s.Add(o, f, pos(n), vs[n%2])
			return n + 1
		}})
		ops = append(ops, lop{fmt.Sprintf("AddAll(%d)", at), func(s ecore.EStore, o ecore.EObject, n int) int {
			s.AddAll(o, f, pos(n), ecore.NewImmutableEList([]any{vs[0], vs[1], vs[0]}))
			return n + 3
		}})
		ops = append(ops, lop{fmt.Sprintf("Remove(%d)", at), func(s ecore.EStore, o ecore.EObject, n int) int {
			if n > 2 {
				s.Remove(o, f, min(pos(n), n-1), false)
				return n - 1
			}
			return n
		}})
		for _, to := range []int{0, 1, -2, -1} {
			tpos := func(n int) int {
				if to < 0 {
					return n + to
				}
				return to
			}
			if at == to {
				continue
			}
			ops = append(ops, lop{fmt.Sprintf("Move(%d,%d)", at, to), func(s ecore.EStore, o ecore.EObject, n int) int {
				if n > 2 {
					s.Move(o, f, min(pos(n), n-1), tpos(n), false)
				}
				return n
			}})
		}
	}
	_ = al
	for i := range ops {
		for j := range ops {
			if (i*len(ops)+j)%8 != first || c.Expired() {
				continue
			}
			hist := fmt.Sprintf("%d times %s %s", times, ops[i].name, ops[j].name)
			c.Beat(func() string { return form + " " + hist })
			o := w.root("")
			start := []any{vs[0], vs[1], vs[1], vs[0]}
			w.both(func(s ecore.EStore) any { s.AddAll(o, f, 0, ecore.NewImmutableEList(start)); return nil })
			n := len(start)
			for range times {
				for _, op := range []lop{ops[i], ops[j]} {
					m := n
					w.both(func(s ecore.EStore) any { m = op.run(s, o, n); return nil })
					n = m
					c.Res.Transitions++
				}
			}
			c.Res.States++
			c.Res.Traces++
			c.Eval(hist)
			bad := ""
			if got, want := tell(w.st.ToArray(o, f)), tell(w.mem.ToArray(o, f)); got != want {
				bad = fmt.Sprintf("ToArray is %s, expected %s", got, want)
			}
			if e := w.errs.take(); bad == "" && e != "" {
				bad = "error: " + e
			}
			if c.Res.MaxDepth < 2*times {
				c.Res.MaxDepth = 2 * times
			}
			if bad != "" && !c.Failf("long/"+feature, "%s, feature %s, %s: %s", form, feature, hist, bad) {
				return
			}
		}
	}
}

// storeGraph runs every history of operations of several kinds on two objects,
// roots or not, their features, their containers and the roots of the store.
func storeGraph(c *mc.Ctx, form string, depth, first int) {
	type gop struct {
		name string
		ok   func(w *sqlWorld, o []ecore.EObject) bool
		run  func(s ecore.EStore, m *mm, o []ecore.EObject) any
	}
	var ops []gop
	always := func(w *sqlWorld, o []ecore.EObject) bool { return true }
	for x := range 2 {
		y := 1 - x
		isRoot := func(w *sqlWorld, o []ecore.EObject) bool {
			for _, r := range w.mem.roots {
				if r == o[x] {
					return true
				}
			}
			return false
		}
		n := string(rune('a' + x))
		ops = append(ops,
			gop{n + ".AddRoot", func(w *sqlWorld, o []ecore.EObject) bool { return !isRoot(w, o) }, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.AddRoot(o[x]); return nil }},
			gop{n + ".RemoveRoot", isRoot, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.RemoveRoot(o[x]); return nil }},
			gop{n + ".Set(s)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.Set(o[x], m.f("N.s"), -1, "v", false); return nil }},
			gop{n + ".Set(i)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.Set(o[x], m.f("N.i"), -1, 5, false); return nil }},
			gop{n + ".UnSet(s)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.UnSet(o[x], m.f("N.s")); return nil }},
			gop{n + ".Add(ss)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.Add(o[x], m.f("N.ss"), 0, "w"); return nil }},
			gop{n + ".AddAll(ss)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any {
				l := ecore.NewBasicEList([]any{"p", "q"})
				s.AddAll(o[x], m.f("N.ss"), 0, l)
				l.Clear()
				l.Add("r")
				return nil
			}},
			gop{n + ".Clear(ss)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.Clear(o[x], m.f("N.ss")); return nil }},
			gop{n + ".Set(c)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.Set(o[x], m.f("N.c"), -1, o[y], false); return nil }},
			gop{n + ".Add(cs)", func(w *sqlWorld, o []ecore.EObject) bool { return w.mem.Size(o[x], w.m.f("N.cs")) == 0 }, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.Add(o[x], m.f("N.cs"), 0, o[y]); return nil }},
			gop{n + ".SetContainer(c)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.SetContainer(o[x], o[y], m.f("N.c")); return nil }},
			gop{n + ".SetContainer(cs)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.SetContainer(o[x], o[y], m.f("N.cs")); return nil }},
			gop{n + ".SetContainer(nil)", always, func(s ecore.EStore, m *mm, o []ecore.EObject) any { s.SetContainer(o[x], nil, nil); return nil }},
		)
	}
	w := newSQLWorld(form)
	defer func() { w.done() }()
	stop := false
	count := 0
	look := func(s ecore.EStore, o []ecore.EObject) string {
		name := func(v any) string {
			for i := range o {
				if v == any(o[i]) {
					return string(rune('a' + i))
				}
			}
			return tell(v)
		}
		var b strings.Builder
		for i := range o {
			ct, cf := s.GetContainer(o[i])
			fmt.Fprintf(&b, "%c: ", 'a'+i)
			if ct != nil {
				fmt.Fprintf(&b, "in %s.%s ", name(ct), cf.GetName())
			}
			for _, n := range []string{"s", "i", "c"} {
				f := w.m.f("N." + n)
				fmt.Fprintf(&b, "%s=%s(%v) ", n, name(unset(f, s.Get(o[i], f, -1))), s.IsSet(o[i], f))
			}
			for _, n := range []string{"ss", "cs"} {
				fmt.Fprintf(&b, "%s=", n)
				for _, v := range s.ToArray(o[i], w.m.f("N."+n)) {
					fmt.Fprintf(&b, "%s,", name(v))
				}
			}
			b.WriteString("; ")
		}
		var rs []ecore.EObject
		switch x := s.(type) {
		case *memStore:
			rs = x.roots
		case *ecore.SQLStore:
			rs = x.GetRoots()
		}
		b.WriteString("roots ")
		for _, r := range rs {
			for i := range o {
				if r == o[i] {
					b.WriteString(name(r))
				}
			}
		}
		return b.String()
	}
	var rec func(h []int)
	rec = func(h []int) {
		if stop || c.Expired() {
			return
		}
		o := []ecore.EObject{newSQLObj(w.m.c("N")), newSQLObj(w.m.c("N"))}
		var names []string
		ok := true
		for _, x := range h {
			if !ops[x].ok(w, o) {
				ok = false
				break
			}
			names = append(names, ops[x].name)
			w.both(func(s ecore.EStore) any { return ops[x].run(s, w.m, o) })
		}
		if ok && len(h) > 0 {
			hist := strings.Join(names, " ")
			c.Beat(func() string { return form + " " + hist })
			bad := ""
			if got, want := look(w.st, o), look(w.mem, o); got != want {
				bad = fmt.Sprintf("the store tells %s, expected %s", got, want)
			}
			if bad == "" {
				if bad = w.wait(); bad == "" {
					if got, want := look(w.st, o), look(w.mem, o); got != want {
						bad = fmt.Sprintf("after the operations have ended the store tells %s, expected %s", got, want)
					}
				}
			}
			if e := w.errs.take(); bad == "" && e != "" {
				bad = "error: " + e
			}
			c.Res.States++
			c.Res.Traces++
			c.Res.Transitions += int64(len(h))
			c.Eval(hist)
			if c.Res.MaxDepth < len(h) {
				c.Res.MaxDepth = len(h)
			}
			if bad != "" && !c.Failf("graph", "%s, %s: %s", form, hist, bad) {
				stop = true
				return
			}
		}
		// the roots of one history only
		w.mem.roots = append([]ecore.EObject{}, w.mem.roots...)
		for _, x := range o {
			for _, r := range w.mem.roots {
				if r == x {
					w.both(func(s ecore.EStore) any { s.RemoveRoot(x); return nil })
					break
				}
			}
		}
		count++
		if count%1000 == 0 {
			w.done()
			w = newSQLWorld(form)
		}
		if ok && len(h) < depth {
			for i := range ops {
				if len(h) > 0 || i == first {
					rec(append(append([]int{}, h...), i))
				}
			}
		}
	}
	rec(nil)
}

func init() {
	register(&mc.Check{ID: "C18", Level: "model_checking",
		Rule:        "many/, single/: every history of the operations of an EStore on a feature, up to a depth, run on a real SQL store (databases in files and in memory) and on a plain model of the store; all that both return and all that both then tell about the feature (size, elements, indexes, set or not) is compared, with operations still under way and with all operations ended, and again after closing the store and opening the database again; no operation may log an error. graph/: the same with two objects, their features of several kinds, their containers and the roots of the store, the objects being in the store before or not. long/: every pair of list operations, repeated.",
		Assumptions: []string{"one client", "indexes within the list", "non-containment references point to objects in the store"},
		Items: func(tier string) []mc.Item {
			var items []mc.Item
			vals := map[string]func(w *sqlWorld) []any{
				"ss": func(*sqlWorld) []any { return []any{"x", ""} },
				"is": func(*sqlWorld) []any { return []any{1, 0} },
				"rs": func(w *sqlWorld) []any { return []any{w.root("ra"), w.root("rb")} },
				"cs": func(w *sqlWorld) []any { return []any{w.root("ca"), w.root("cb")} },
			}
			now := time.Unix(1700000000, 123000000).UTC()
			for n, vs := range map[string][]any{"s": {"x", ""}, "i": {1, 0}, "b": {true, false}, "f": {1.5, 0.0}, "l": {int64(1) << 40, int64(0)}, "sh": {int16(-3), int16(0)}, "by": {byte(200), byte(0)},
				"f32": {float32(1.5), float32(0)}, "ch": {byte('z')}, "d": {&now}, "sd": {"x", "dd"}, "id": {1, 7}, "bd": {true, false}, "su": {"x", ""}, "iu": {1, 0}} {
				vals[n] = func(*sqlWorld) []any { return vs }
			}
			vals["r"] = vals["rs"]
			vals["c"] = vals["cs"]
			forms := []string{"memory", "memory-held", "file"}
			for _, form := range []string{"memory", "file"} {
				for k := range 26 {
					depth := 2
					if tier == "thorough" || form == "memory" {
						depth = 3
					}
					items = append(items, mc.Item{Name: fmt.Sprintf("graph/%s/%d", form, k), Run: func(c *mc.Ctx) { storeGraph(c, form, depth, k) }})
				}
			}
			for k := range 8 {
				for _, cache := range []bool{false, true} {
					for at := range 2 {
						depth := 3
						if tier == "quick" && at == 1 {
							depth = 2
						}
						items = append(items, mc.Item{Name: fmt.Sprintf("objects/cache-%v/attach%d/%d", cache, at, k), Run: func(c *mc.Ctx) { storeObjects(c, "memory", cache, depth, k, at) }})
					}
				}
			}
			for k := range 8 {
				times := 40
				if tier == "thorough" {
					times = 400
				}
				items = append(items, mc.Item{Name: fmt.Sprintf("long/%d", k), Run: func(c *mc.Ctx) { storeLong(c, "memory", "ss", times, k) }})
			}
			for _, form := range forms {
				for _, n := range sortedKeys(vals) {
					many := storeMM().f("N." + n).IsMany()
					if many {
						depth := 3
						if tier == "thorough" {
							depth = 4
						}
						ops := func(vs []any) []storeOp { return manyOps(vs, 3) }
						nops := len(manyOps(make([]any, 2), 3))
						start := []int{}
						for i := range nops {
							if manyOps(make([]any, 2), 3)[i].ok(0) {
								start = append(start, i)
							}
						}
						for _, i := range start {
							items = append(items, mc.Item{Name: fmt.Sprintf("many/%s/%s/%d", form, n, i), Run: func(c *mc.Ctx) {
								storeHistories(c, "many/"+n, form, n, vals[n], ops, depth, func(k int) bool { return k == i })
							}})
						}
					} else {
						depth := 3
						items = append(items, mc.Item{Name: fmt.Sprintf("single/%s/%s", form, n), Run: func(c *mc.Ctx) {
							storeHistories(c, "single/"+n, form, n, vals[n], singleOps, depth, nil)
						}})
					}
				}
			}
			return items
		}})
}

var _ = reflect.DeepEqual
var _ = sort.Strings
