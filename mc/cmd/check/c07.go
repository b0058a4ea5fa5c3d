package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

func init() {
	register(&mc.Check{ID: "C07", Level: "model_checking",
		Rule:        "every history of reflective calls (get, set, unset, list and map operations, proxy, delivery, container and resource changes, and for store-backed objects switching the cache and the store on and off) run at the same time on objects of one implementation and on dynamic objects; after the last call everything readable (values, is-set, containers, contents, cross references, proxy state, notifications, results and panics) is compared; enumerated without merging up to a depth, then merged by the observed state",
		Assumptions: []string{"the store behind store-backed objects is the harness' in-memory reference store; when a store is switched on it holds the values the object has"},
		Items:       c07Items})
}

// ---------------------------------------------------------------------------
// a world of objects of one kind

type lockWorld struct {
	kind  string
	st    *memStore
	m     *mm
	objs  []ecore.EObject
	res   []ecore.EResource
	log   []string
	off   bool // store switched off
	extra map[string]ecore.EObject
}

type lockAdapter struct {
	ecore.AbstractEAdapter
	w    *lockWorld
	name string
}

func (a *lockAdapter) NotifyChanged(n ecore.ENotification) {
	// notifications that tell of no change are sent or not depending on whether
	// a list was already created
	if f := n.GetFeature(); f != nil && f.IsMany() {
		switch n.GetEventType() {
		case ecore.REMOVE_MANY:
			if l, ok := n.GetOldValue().([]any); ok && len(l) == 0 {
				return
			}
		case ecore.UNSET:
			if n.GetOldValue() == nil && n.GetNewValue() == nil {
				return
			}
		}
	}
	f := "-"
	if sf := n.GetFeature(); sf != nil {
		f = sf.GetName()
	}
	a.w.log = append(a.w.log, fmt.Sprintf("%s:%v %s fid%d pos%d old=%s new=%s", a.name, n.GetEventType(), f, n.GetFeatureID(), n.GetPosition(), a.w.render(n.GetOldValue()), a.w.render(n.GetNewValue())))
}

func (w *lockWorld) name(o ecore.EObject) string {
	for i, x := range w.objs {
		if x == o {
			return objName(i)
		}
	}
	var names []string
	for n, x := range w.extra {
		if x == o {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) > 0 {
		return names[0]
	}
	if e, ok := o.(ecore.EMapEntry); ok {
		return fmt.Sprintf("(%s=%s)", w.render(e.GetKey()), w.render(e.GetValue()))
	}
	return "?" + o.EClass().GetName()
}

func (w *lockWorld) render(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *ecore.URI:
		if x == nil {
			return "nil"
		}
		return "<" + x.String() + ">"
	case ecore.EResource:
		for i, r := range w.res {
			if r == x {
				return fmt.Sprintf("R%d", i)
			}
		}
		return "R?"
	case ecore.EList:
		return w.renderAll(x.ToArray())
	case []any:
		return w.renderAll(x)
	case *lockAdapter:
		return "@" + x.name
	case ecore.EObject:
		return w.name(x)
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func (w *lockWorld) renderAll(vs []any) string {
	s := make([]string, len(vs))
	for i, v := range vs {
		s[i] = w.render(v)
	}
	return "[" + strings.Join(s, " ") + "]"
}

// observe reads everything that can be read reflectively.
func (w *lockWorld) observe() []string {
	var out []string
	put := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for i, o := range w.objs {
		n := objName(i)
		in := o.(ecore.EObjectInternal)
		for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			put("%s.%s is set: %v", n, f.GetName(), o.EIsSet(f))
			u := o.EGetResolve(f, false)
			if l, ok := u.(ecore.EObjectList); ok {
				u = l.GetUnResolvedList()
			}
			put("%s.%s unresolved: %s", n, f.GetName(), w.render(u))
			v := o.EGet(f)
			put("%s.%s: %s", n, f.GetName(), w.render(v))
			if l, ok := v.(ecore.EList); ok {
				put("%s.%s size: %d %v", n, f.GetName(), l.Size(), l.Empty())
				var it []string
				for e := range l.All() {
					it = append(it, w.render(e))
				}
				put("%s.%s all: %v", n, f.GetName(), it)
				for j := 0; j < l.Size(); j++ {
					put("%s.%s[%d]: %s index %d", n, f.GetName(), j, w.render(l.Get(j)), l.IndexOf(l.Get(j)))
				}
				if m, ok := v.(ecore.EMap); ok {
					for _, k := range []string{"k", "l", "m"} {
						put("%s.%s(%s): %v %s", n, f.GetName(), k, m.ContainsKey(k), w.render(m.GetValue(k)))
					}
					put("%s.%s map size %d", n, f.GetName(), len(m.ToMap()))
				}
			}
			put("%s.%s is set after reading: %v", n, f.GetName(), o.EIsSet(f))
			put("%s.%s feature id: %d", n, f.GetName(), in.EFeatureID(f))
		}
		put("%s container: %s", n, w.render(o.EContainer()))
		put("%s container feature id: %d", n, in.EInternalContainerFeatureID())
		cf := "nil"
		if f := o.EContainingFeature(); f != nil {
			cf = f.GetName()
		}
		put("%s containing feature: %s", n, cf)
		put("%s resource: %s", n, w.render(nilRes(o.EResource())))
		put("%s contents: %s", n, w.render(o.EContents()))
		put("%s cross: %s", n, w.render(o.ECrossReferences()))
		all := []any{}
		for it := o.EAllContents(); it.HasNext() && len(all) < 20; {
			all = append(all, it.Next())
		}
		put("%s all contents: %s", n, w.render(all))
		put("%s proxy: %v %s", n, o.EIsProxy(), w.render(in.EProxyURI()))
		put("%s deliver: %v", n, o.EDeliver())
		put("%s adapters: %s", n, w.render(o.EAdapters()))
	}
	for i, r := range w.res {
		put("R%d contents: %s", i, w.render(r.GetContents()))
	}
	return out
}

func nilRes(r ecore.EResource) any {
	if r == nil {
		return nil
	}
	return r
}

// syncStore makes the store hold what the objects hold (the state in which a
// store is switched on).
func (w *lockWorld) syncStore() {
	w.st.single, w.st.set, w.st.lists, w.st.cont = map[memKey]any{}, map[memKey]bool{}, map[memKey][]any{}, map[ecore.EObject]memCont{}
	var visit func(o ecore.EObject)
	visit = func(o ecore.EObject) {
		for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			if f.IsTransient() {
				continue
			}
			if ref, ok := f.(ecore.EReference); ok && ref.IsContainer() {
				continue
			}
			if !o.EIsSet(f) {
				continue
			}
			v := o.EGetResolve(f, false)
			k := memKey{o, f}
			if f.IsMany() {
				l := v.(ecore.EList)
				if ol, ok := l.(ecore.EObjectList); ok {
					l = ol.GetUnResolvedList()
				}
				w.st.lists[k] = append([]any{}, l.ToArray()...)
				for _, e := range w.st.lists[k] {
					if e, ok := e.(ecore.EMapEntry); ok {
						visit(e.(ecore.EObject))
					}
				}
			} else {
				w.st.single[k] = v
				w.st.set[k] = v != nil
			}
		}
		in := o.(ecore.EObjectInternal)
		if c := in.EInternalContainer(); c != nil {
			id := in.EInternalContainerFeatureID()
			var f ecore.EStructuralFeature
			if id <= ecore.EOPPOSITE_FEATURE_BASE {
				f = c.EClass().GetEStructuralFeature(ecore.EOPPOSITE_FEATURE_BASE - id)
			} else {
				f = o.EClass().GetEStructuralFeature(id).(ecore.EReference).GetEOpposite()
			}
			w.st.cont[o] = memCont{c, f}
		}
	}
	for _, o := range w.objs {
		visit(o)
	}
}

// ---------------------------------------------------------------------------

type lockOp struct {
	name  string
	do    func(w *lockWorld) any
	store bool // only for store-backed worlds (dynamic: nothing)
	when  func(w *lockWorld) bool
}

type lockScenario struct {
	name  string
	specs []cspec
	n     int
	res   int
	init  func(w *lockWorld)
	ops   func(m *mm) []lockOp
}

type lockSys struct {
	ops      []lockOp
	ref, sut *lockWorld
	all      []*lockWorld
}

func (sc *lockScenario) world(kind string, m *mm) *lockWorld {
	w := &lockWorld{kind: kind, st: newMemStore(), m: m, extra: map[string]ecore.EObject{}}
	for i := 0; i < sc.n; i++ {
		o := newObj(kind, m.c("N"), w.st)
		w.objs = append(w.objs, o)
		o.EAdapters().Add(&lockAdapter{w: w, name: objName(i)})
	}
	if sc.res > 0 {
		rs := ecore.NewEResourceSetImpl()
		for i := 0; i < sc.res; i++ {
			r := rs.CreateResource(ecore.NewURI(fmt.Sprintf("mem:/r%d", i)))
			w.res = append(w.res, r)
			r.EAdapters().Add(&lockAdapter{w: w, name: fmt.Sprintf("R%d", i)})
		}
	}
	if sc.init != nil {
		sc.init(w)
	}
	w.log = nil
	return w
}

func (s *lockSys) Enabled(i int) bool {
	op := s.ops[i]
	if op.store && !strings.HasPrefix(s.sut.kind, "estore") {
		return false
	}
	return op.when == nil || op.when(s.sut)
}

func (s *lockSys) Key() string { return strings.Join(s.ref.observe(), "\n") }

func (s *lockSys) Step(i int, check bool) *mc.Viol {
	op := s.ops[i]
	s.ref.log, s.sut.log = nil, nil
	res := func(w *lockWorld) string {
		if op.store && w == s.ref {
			return ""
		}
		var v any
		p := mc.Panics(func() { v = op.do(w) })
		if p != "" {
			// texts of panics differ between list implementations
			return "panic"
		}
		return w.render(v)
	}
	a, b := res(s.ref), res(s.sut)
	if !check {
		return nil
	}
	if op.store {
		a, b = "", ""
	}
	if a == "panic" && b == "panic" {
		a, b = "", ""
	}
	if a != b {
		return &mc.Viol{Key: strings.Fields(op.name)[0] + ":result", Msg: fmt.Sprintf("result %s on %s objects, %s on dynamic ones", b, s.sut.kind, a)}
	}
	la, lb := strings.Join(s.ref.log, " | "), strings.Join(s.sut.log, " | ")
	if la != lb {
		return &mc.Viol{Key: strings.Fields(op.name)[0] + ":notifications", Msg: fmt.Sprintf("notifications {%s} on %s objects, {%s} on dynamic ones", lb, s.sut.kind, la)}
	}
	var oa, ob []string
	if p := mc.Panics(func() { oa = s.ref.observe() }); p != "" {
		return &mc.Viol{Key: "reference-panic", Msg: "reading dynamic objects panics: " + p + " at " + mc.LastStack()}
	}
	if p := mc.Panics(func() { ob = s.sut.observe() }); p != "" {
		return &mc.Viol{Key: "read-panic", Msg: "reading " + s.sut.kind + " objects panics: " + p + " at " + mc.LastStack()}
	}
	for i := range oa {
		if i >= len(ob) || oa[i] != ob[i] {
			x := "nothing"
			if i < len(ob) {
				x = ob[i]
			}
			return &mc.Viol{Key: strings.Fields(op.name)[0] + ":" + strings.Fields(strings.SplitN(oa[i], ":", 2)[0])[0], Msg: fmt.Sprintf("%s objects read {%s}, dynamic ones {%s}", s.sut.kind, x, oa[i])}
		}
	}
	if len(ob) != len(oa) {
		return &mc.Viol{Key: "observation", Msg: "more can be read: " + ob[len(oa)]}
	}
	return nil
}

// ---------------------------------------------------------------------------
// operations

func get(w *lockWorld, i int, f string) any { return w.objs[i].EGet(w.m.f("N." + f)) }

func lst(w *lockWorld, i int, f string) ecore.EList { return get(w, i, f).(ecore.EList) }

func opGet(i int, f string) lockOp {
	return lockOp{name: fmt.Sprintf("get %s.%s", objName(i), f), do: func(w *lockWorld) any { return get(w, i, f) }}
}

func opIsSet(i int, f string) lockOp {
	return lockOp{name: fmt.Sprintf("isset %s.%s", objName(i), f), do: func(w *lockWorld) any { return w.objs[i].EIsSet(w.m.f("N." + f)) }}
}

func opSet(i int, f string, v any) lockOp {
	return lockOp{name: fmt.Sprintf("set %s.%s=%v", objName(i), f, v), do: func(w *lockWorld) any { w.objs[i].ESet(w.m.f("N."+f), v); return nil }}
}

// opRef sets a reference to object j (-1: nil)
func opRef(i int, f string, j int) lockOp {
	return lockOp{name: fmt.Sprintf("set %s.%s=%s", objName(i), f, name1(j)), do: func(w *lockWorld) any {
		if j < 0 {
			w.objs[i].ESet(w.m.f("N."+f), nil)
		} else {
			w.objs[i].ESet(w.m.f("N."+f), w.objs[j])
		}
		return nil
	}, when: func(w *lockWorld) bool { return j < 0 || okRef(w, i, f, j) }}
}

func name1(j int) string {
	if j < 0 {
		return "nil"
	}
	return objName(j)
}

// okRef excludes containment cycles.
func okRef(w *lockWorld, i int, f string, j int) bool {
	ref := w.m.f("N." + f).(ecore.EReference)
	if ref.IsContainment() {
		return !isAnc(w.objs[j], w.objs[i])
	}
	if ref.IsContainer() {
		return !isAnc(w.objs[i], w.objs[j])
	}
	return true
}

func isAnc(a, x ecore.EObject) bool {
	for n := 0; x != nil && n < 20; n++ {
		if x == a {
			return true
		}
		x = x.(ecore.EObjectInternal).EInternalContainer()
	}
	return false
}

func opUnset(i int, f string) lockOp {
	return lockOp{name: fmt.Sprintf("unset %s.%s", objName(i), f), do: func(w *lockWorld) any { w.objs[i].EUnset(w.m.f("N." + f)); return nil }}
}

func opListF(i int, f, what string, do func(l ecore.EList, w *lockWorld) any) lockOp {
	return lockOp{name: fmt.Sprintf("%s %s.%s", what, objName(i), f), do: func(w *lockWorld) any { return do(lst(w, i, f), w) }}
}

// opsList: list operations; val gives the element number e in a world
func opsList(i int, f string, vals []string, val func(w *lockWorld, e int) any, ok func(w *lockWorld, e int) bool) []lockOp {
	var r []lockOp
	for e, n := range vals {
		e := e
		r = append(r,
			opListF(i, f, "add "+n, func(l ecore.EList, w *lockWorld) any { return l.Add(val(w, e)) }),
			opListF(i, f, "insert0 "+n, func(l ecore.EList, w *lockWorld) any { return l.Insert(0, val(w, e)) }),
			opListF(i, f, "set0 "+n, func(l ecore.EList, w *lockWorld) any { return l.Set(0, val(w, e)) }),
		)
		if ok != nil {
			for k := len(r) - 3; k < len(r); k++ {
				r[k].when = func(w *lockWorld) bool { return ok(w, e) }
			}
		}
		r = append(r, opListF(i, f, "remove "+n, func(l ecore.EList, w *lockWorld) any { return l.Remove(val(w, e)) }))
	}
	all := opListF(i, f, "addall", func(l ecore.EList, w *lockWorld) any {
		var vs []any
		for e := range vals {
			vs = append(vs, val(w, e))
		}
		return l.AddAll(ecore.NewImmutableEList(vs))
	})
	if ok != nil {
		all.when = func(w *lockWorld) bool {
			for e := range vals {
				if !ok(w, e) {
					return false
				}
			}
			return true
		}
	}
	return append(r, all,
		opListF(i, f, "removeat0", func(l ecore.EList, w *lockWorld) any { return l.RemoveAt(0) }),
		opListF(i, f, "move1to0", func(l ecore.EList, w *lockWorld) any { return l.Move(1, 0) }),
		opListF(i, f, "clear", func(l ecore.EList, w *lockWorld) any { l.Clear(); return nil }))
}

func opsRefList(i int, f string, js ...int) []lockOp {
	var names []string
	for _, j := range js {
		names = append(names, objName(j))
	}
	return opsList(i, f, names, func(w *lockWorld, e int) any { return w.objs[js[e]] }, func(w *lockWorld, e int) bool { return okRef(w, i, f, js[e]) })
}

func opsTextList(i int, f string) []lockOp {
	v := []string{"x", "y"}
	return opsList(i, f, v, func(w *lockWorld, e int) any { return v[e] }, nil)
}

// storeOps: switching cache and store of all objects
func storeOps() []lockOp {
	setCache := func(w *lockWorld, c bool) {
		for _, o := range w.objs {
			o.(ecore.ECacheProvider).SetCache(c)
		}
	}
	setStore := func(w *lockWorld, st ecore.EStore) {
		for _, o := range w.objs {
			o.(ecore.EStoreProvider).SetEStore(st)
		}
	}
	hasStore := func(w *lockWorld) bool { return strings.HasPrefix(w.kind, kStoreMem) && !w.off }
	return []lockOp{
		{name: "cache-on", store: true, do: func(w *lockWorld) any { setCache(w, true); return nil }},
		{name: "cache-off", store: true, do: func(w *lockWorld) any { setCache(w, false); return nil }},
		{name: "store-off", store: true, when: hasStore, do: func(w *lockWorld) any {
			// the collections are read first: see the item store-off-unread
			for _, o := range w.objs {
				for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
					o.EGetResolve(it.Next().(ecore.EStructuralFeature), false)
				}
			}
			setStore(w, nil)
			w.off = true
			return nil
		}},
		{name: "store-on", store: true, when: func(w *lockWorld) bool { return !hasStore(w) }, do: func(w *lockWorld) any {
			w.syncStore()
			setStore(w, w.st)
			w.off = false
			if !strings.HasPrefix(w.kind, kStoreMem) {
				w.kind = kStoreMem + "(was no store)"
			}
			return nil
		}},
		{name: "lock-unlock", store: true, do: func(w *lockWorld) any {
			for _, o := range w.objs {
				l := o.(ecore.ELockProvider)
				l.Lock()
				l.Unlock()
			}
			return nil
		}},
	}
}

func cat(xs ...[]lockOp) []lockOp {
	var r []lockOp
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func c07Scenarios() []lockScenario {
	attr := []cspec{{name: "N", feats: []fspec{
		{name: "name", typ: "string"},
		{name: "count", typ: "int", def: "7"},
		{name: "note", typ: "string", unsettable: true},
		{name: "tmp", typ: "string", transient: true},
	}}}
	lists := []cspec{{name: "N", feats: []fspec{
		{name: "pre", typ: "string"},
		{name: "tags", typ: "string", many: true, nonUnique: true},
		{name: "utags", typ: "string", many: true},
		{name: "tmps", typ: "string", many: true, nonUnique: true, transient: true},
	}}}
	cont := []cspec{{name: "N", feats: []fspec{
		{name: "children", typ: "N", ref: true, many: true, cont: true},
		{name: "child", typ: "N", ref: true, cont: true},
		{name: "parent", typ: "N", ref: true, opp: "N.kids"},
		{name: "kids", typ: "N", ref: true, many: true, cont: true, opp: "N.parent"},
	}}}
	cont1 := []cspec{{name: "N", feats: []fspec{
		{name: "owner", typ: "N", ref: true, opp: "N.kid"},
		{name: "kid", typ: "N", ref: true, cont: true, opp: "N.owner"},
		{name: "boxes", typ: "N", ref: true, many: true, cont: true, noResolve: true},
	}}}
	refs := []cspec{{name: "N", feats: []fspec{
		{name: "ref", typ: "N", ref: true},
		{name: "refs", typ: "N", ref: true, many: true},
		{name: "next", typ: "N", ref: true, opp: "N.prev"},
		{name: "prev", typ: "N", ref: true, opp: "N.next"},
	}}}
	refs2 := []cspec{{name: "N", feats: []fspec{
		{name: "ns", typ: "N", ref: true, many: true, opp: "N.ms"},
		{name: "ms", typ: "N", ref: true, many: true, opp: "N.ns"},
		{name: "one", typ: "N", ref: true, opp: "N.many"},
		{name: "many", typ: "N", ref: true, many: true, opp: "N.one"},
	}}}
	maps := []cspec{
		{name: "E", mapEntry: true, feats: []fspec{{name: "key", typ: "string"}, {name: "value", typ: "string"}}},
		{name: "N", feats: []fspec{
			{name: "pre", typ: "string"},
			{name: "map", typ: "E", ref: true, many: true, cont: true},
			{name: "tmap", typ: "E", ref: true, many: true, cont: true, transient: true},
		}}}
	mapOps := func(f string) []lockOp {
		var r []lockOp
		for _, k := range []string{"k", "l"} {
			for _, v := range []string{"v", "w"} {
				k, v := k, v
				r = append(r, lockOp{name: "put " + f + " " + k + "=" + v, do: func(w *lockWorld) any { get(w, 0, f).(ecore.EMap).Put(k, v); return nil }})
			}
			k := k
			r = append(r, lockOp{name: "removekey " + f + " " + k, do: func(w *lockWorld) any { return get(w, 0, f).(ecore.EMap).RemoveKey(k) }})
		}
		return append(r, opUnset(0, f), opListF(0, f, "clear", func(l ecore.EList, w *lockWorld) any { l.Clear(); return nil }),
			opListF(0, f, "removeat0", func(l ecore.EList, w *lockWorld) any { return l.RemoveAt(0) }),
			opListF(0, f, "move1to0", func(l ecore.EList, w *lockWorld) any { return l.Move(1, 0) }))
	}
	inst := func(m *mm) []lockOp {
		return []lockOp{
			{name: "proxy-set", do: func(w *lockWorld) any {
				w.objs[0].(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("mem:/x#/"))
				return nil
			}},
			{name: "proxy-unset", do: func(w *lockWorld) any { w.objs[0].(ecore.EObjectInternal).ESetProxyURI(nil); return nil }},
			{name: "deliver-off", do: func(w *lockWorld) any { w.objs[0].ESetDeliver(false); return nil }},
			{name: "deliver-on", do: func(w *lockWorld) any { w.objs[0].ESetDeliver(true); return nil }},
			{name: "adapters-clear", do: func(w *lockWorld) any {
				w.objs[0].EAdapters().RemoveAt(0)
				return nil
			}, when: func(w *lockWorld) bool { return !w.objs[0].EAdapters().Empty() }},
			{name: "adapter-add", do: func(w *lockWorld) any {
				w.objs[0].EAdapters().Add(&lockAdapter{w: w, name: "extra"})
				return nil
			}, when: func(w *lockWorld) bool { return w.objs[0].EAdapters().Size() < 3 }},
			{name: "contents", do: func(w *lockWorld) any { return w.objs[0].EContents().Size() }},
			{name: "cross", do: func(w *lockWorld) any { return w.objs[0].ECrossReferences().Size() }},
			{name: "res0-add a", do: func(w *lockWorld) any { return w.res[0].GetContents().Add(w.objs[0]) }},
			{name: "res1-add a", do: func(w *lockWorld) any { return w.res[1].GetContents().Add(w.objs[0]) }},
			{name: "res0-clear", do: func(w *lockWorld) any { w.res[0].GetContents().Clear(); return nil }},
			{name: "res0-remove a", do: func(w *lockWorld) any { return w.res[0].GetContents().Remove(w.objs[0]) }},
			opSet(0, "name", "v"), opUnset(0, "name"),
			opRef(1, "child", 0), opRef(1, "child", -1), opRef(0, "ref", 1), opRef(0, "parent", 1), opRef(0, "parent", -1),
			opRef(1, "box", 0),
		}
	}
	instSpec := []cspec{{name: "N", feats: []fspec{
		{name: "name", typ: "string"},
		{name: "child", typ: "N", ref: true, cont: true},
		{name: "ref", typ: "N", ref: true},
		{name: "parent", typ: "N", ref: true, opp: "N.kids"},
		{name: "kids", typ: "N", ref: true, many: true, cont: true, opp: "N.parent"},
		{name: "box", typ: "N", ref: true, cont: true, noResolve: true},
	}}}
	return []lockScenario{
		{name: "attributes", specs: attr, n: 1, ops: func(m *mm) []lockOp {
			r := cat(storeOps())
			for _, f := range []string{"name", "note", "tmp"} {
				r = append(r, opSet(0, f, "x"), opSet(0, f, "y"), opSet(0, f, ""), opSet(0, f, nil), opUnset(0, f), opGet(0, f), opIsSet(0, f))
			}
			return append(r, opSet(0, "count", 7), opSet(0, "count", 0), opSet(0, "count", 3), opUnset(0, "count"), opGet(0, "count"))
		}},
		{name: "lists", specs: lists, n: 1, ops: func(m *mm) []lockOp {
			r := cat(storeOps(), opsTextList(0, "tags"), opsTextList(0, "utags"))
			for _, f := range []string{"tags", "utags"} {
				r = append(r, opUnset(0, f), opIsSet(0, f), opSet(0, f, ecore.NewImmutableEList([]any{"y", "x"})))
			}
			return append(r, opListF(0, "tmps", "add t", func(l ecore.EList, w *lockWorld) any { return l.Add("t") }), opSet(0, "pre", "p"))
		}},
		{name: "containment", specs: cont, n: 3, ops: func(m *mm) []lockOp {
			return cat(storeOps(), opsRefList(0, "children", 1, 2), opsRefList(0, "kids", 1, 2),
				[]lockOp{opRef(0, "child", 1), opRef(0, "child", 2), opRef(0, "child", -1), opUnset(0, "child"), opRef(1, "parent", 0), opRef(1, "parent", -1), opRef(2, "parent", 0), opUnset(1, "parent"), opRef(1, "child", 2), opUnset(0, "children")})
		}},
		{name: "single-containment", specs: cont1, n: 3, res: 1, ops: func(m *mm) []lockOp {
			return cat(storeOps(), opsRefList(0, "boxes", 1, 2), []lockOp{
				opRef(0, "kid", 1), opRef(0, "kid", 2), opRef(0, "kid", -1), opUnset(0, "kid"), opRef(1, "owner", 0), opRef(2, "owner", 0), opRef(1, "owner", -1), opRef(1, "owner", 2), opUnset(1, "owner"),
				{name: "res-add a", do: func(w *lockWorld) any { return w.res[0].GetContents().Add(w.objs[0]) }},
				{name: "res-add b", do: func(w *lockWorld) any { return w.res[0].GetContents().Add(w.objs[1]) }},
			})
		}},
		{name: "references", specs: refs, n: 3, ops: func(m *mm) []lockOp {
			return cat(storeOps(), opsRefList(0, "refs", 0, 1), []lockOp{
				opRef(0, "ref", 1), opRef(0, "ref", -1), opUnset(0, "ref"), opRef(0, "next", 1), opRef(2, "next", 1), opRef(1, "prev", 0), opRef(1, "prev", 2), opRef(0, "next", 0), opRef(0, "next", -1), opUnset(1, "prev"), opUnset(0, "refs")})
		}},
		{name: "opposite-lists", specs: refs2, n: 3, ops: func(m *mm) []lockOp {
			return cat(storeOps(), opsRefList(0, "ns", 1, 2), opsRefList(1, "ms", 0), []lockOp{
				opRef(1, "one", 0), opRef(1, "one", 2), opRef(1, "one", -1), opUnset(1, "one"), opUnset(0, "ns")}, opsRefList(0, "many", 1, 2))
		}},
		{name: "maps", specs: maps, n: 1, ops: func(m *mm) []lockOp { return cat(storeOps(), mapOps("map"), mapOps("tmap")[:3]) }},
		{name: "instance", specs: instSpec, n: 2, res: 2, ops: func(m *mm) []lockOp { return cat(storeOps(), inst(m)) }},
	}
}

func c07Items(tier string) []mc.Item {
	var items []mc.Item
	for _, sc := range c07Scenarios() {
		sc := sc
		for _, kind := range allKinds[1:] {
			kind := kind
			items = append(items, mc.Item{Name: sc.name + "/" + kind, Run: func(c *mc.Ctx) {
				m := newMM("http://c07/"+sc.name, sc.specs)
				ops := sc.ops(m)
				names := make([]string, len(ops))
				for i, o := range ops {
					names[i] = o.name
				}
				e := &mc.Explore{Ops: names, MaxDepth: 3, NoDedup: 2, Variety: 2, KeyPrefix: sc.name + "/" + kind + ":",
					New: func() mc.Machine {
						return &lockSys{ops: ops, ref: sc.world(kDynamic, m), sut: sc.world(kind, m)}
					}}
				if tier == "thorough" {
					e.MaxDepth, e.Variety = 4, 8
				}
				e.Run(c)
				c.Res.Traces = c.Res.Transitions
			}})
		}
	}
	for _, kind := range []string{kStoreMem, kStoreMemC} {
		kind := kind
		items = append(items, mc.Item{Name: "store-off-unread/" + kind, Run: func(c *mc.Ctx) {
			m := newMM("http://c07/unread", []cspec{{name: "N", feats: []fspec{
				{name: "tags", typ: "string", many: true, nonUnique: true},
				{name: "name", typ: "string"},
			}}})
			// every content of one list and one attribute, given through the store only
			for _, tags := range [][]any{nil, {"x"}, {"x", "y"}} {
				for _, name := range []any{nil, "n"} {
					st := newMemStore()
					o := newObj(kind, m.c("N"), st)
					if len(tags) > 0 {
						st.lists[memKey{o, m.f("N.tags")}] = tags
					}
					if name != nil {
						st.single[memKey{o, m.f("N.name")}], st.set[memKey{o, m.f("N.name")}] = name, true
					}
					o.(ecore.EStoreProvider).SetEStore(nil)
					got := o.EGet(m.f("N.tags")).(ecore.EList).ToArray()
					if fmt.Sprint(got) != fmt.Sprint(append([]any{}, tags...)) {
						if c.Failf("store-off-unread/"+kind+":list", "list %v in the store, %v after the store is switched off", tags, got) {
							return
						}
					}
					if v := o.EGet(m.f("N.name")); fmt.Sprint(v) != strings.Replace(fmt.Sprint(name), "<nil>", "", 1) {
						c.Failf("store-off-unread/"+kind+":value", "value %v in the store, %v after the store is switched off", name, v)
					}
					c.Eval(fmt.Sprint(tags, name))
				}
			}
		}})
	}
	return items
}
