package main

import (
	"fmt"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

func init() {
	register(&mc.Check{ID: "C06", Level: "model_checking",
		Rule:        "every history of map operations (put, remove key, clear), of list operations on the entries (add, insert, replace, move, remove, also with keys that are present), of reflective set/unset of the map feature and, for store-backed maps, of cache and store switches, with reads in between, on every map implementation; after the last operation every reading operation is compared with a plain list of entries",
		Assumptions: []string{"keys and values of entries are changed through the map (the existing TestBasicEMap_UpdateEntry pins that direct changes of an entry may go unnoticed)", "when several entries have the same key, the first one counts"},
		Items:       c06Items})
}

type mapEnt struct {
	k, v any
	e    ecore.EMapEntry
}

type mapSys struct {
	m     ecore.EMap
	model []mapEnt
	ops   []mapOp
	mk    func(k, v any) ecore.EMapEntry
	owner ecore.EObject
	f     ecore.EStructuralFeature
	st    *memStore
	isStore,
	off bool
	kind string
}

type mapOp struct {
	name string
	do   func(s *mapSys) string
	ok   func(s *mapSys) bool
}

var mapKeys = []any{"k", "l", "m"}
var mapVals = []any{"v", "w"}

func (s *mapSys) first(k any) int {
	for i, e := range s.model {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (s *mapSys) Enabled(i int) bool { return s.ops[i].ok == nil || s.ops[i].ok(s) }

func (s *mapSys) Key() string {
	var b strings.Builder
	for _, e := range s.model {
		fmt.Fprintf(&b, "%v=%v ", e.k, e.v)
	}
	if s.off {
		b.WriteString("off")
	}
	return b.String()
}

func (s *mapSys) ins(i int, es ...mapEnt) {
	m := append([]mapEnt{}, s.model[:i]...)
	m = append(m, es...)
	s.model = append(m, s.model[i:]...)
}

func (s *mapSys) del(i int) mapEnt {
	e := s.model[i]
	s.model = append(append([]mapEnt{}, s.model[:i]...), s.model[i+1:]...)
	return e
}

// theMap is read again from the owner before every operation.
func (s *mapSys) theMap() ecore.EMap {
	if s.owner != nil {
		s.m = s.owner.EGet(s.f).(ecore.EMap)
	}
	return s.m
}

func (s *mapSys) observe() string {
	m := s.theMap()
	show := s.Key()
	if m.Size() != len(s.model) || m.Empty() != (len(s.model) == 0) {
		return fmt.Sprintf("size %d, entries are {%s}", m.Size(), show)
	}
	for _, k := range append([]any{"absent", nil}, mapKeys...) {
		i := s.first(k)
		if m.ContainsKey(k) != (i >= 0) {
			return fmt.Sprintf("ContainsKey(%v)=%v, entries are {%s}", k, m.ContainsKey(k), show)
		}
		var want any
		if i >= 0 {
			want = s.model[i].v
		}
		if got := m.GetValue(k); got != want {
			return fmt.Sprintf("GetValue(%v)=%v, entries are {%s}", k, got, show)
		}
	}
	for _, v := range append([]any{"absent"}, mapVals...) {
		want := false
		for _, e := range s.model {
			want = want || e.v == v
		}
		if m.ContainsValue(v) != want {
			return fmt.Sprintf("ContainsValue(%v)=%v, entries are {%s}", v, !want, show)
		}
	}
	mm := m.ToMap()
	n := 0
	for i, e := range s.model {
		if s.first(e.k) == i {
			n++
			if v, ok := mm[e.k]; !ok || v != e.v {
				return fmt.Sprintf("ToMap()=%v, entries are {%s}", mm, show)
			}
		}
	}
	if len(mm) != n {
		return fmt.Sprintf("ToMap()=%v, entries are {%s}", mm, show)
	}
	arr := m.ToArray()
	i := 0
	for x := range m.All() {
		e, ok := x.(ecore.EMapEntry)
		if !ok || i >= len(s.model) || i >= len(arr) {
			return fmt.Sprintf("more entries than {%s}", show)
		}
		w := s.model[i]
		if e.GetKey() != w.k || e.GetValue() != w.v || arr[i] != x || m.Get(i) != x || m.IndexOf(x) != i || !m.Contains(x) {
			return fmt.Sprintf("entry %d is %v=%v (index %d), entries are {%s}", i, e.GetKey(), e.GetValue(), m.IndexOf(x), show)
		}
		if w.e != nil && any(w.e) != x {
			return fmt.Sprintf("entry %d is another object", i)
		}
		i++
	}
	if i != len(s.model) {
		return fmt.Sprintf("%d entries, entries are {%s}", i, show)
	}
	if s.owner != nil {
		if got := s.owner.EIsSet(s.f); got != (len(s.model) > 0) {
			return fmt.Sprintf("EIsSet=%v, entries are {%s}", got, show)
		}
		for _, x := range arr {
			if x.(ecore.EObject).EContainer() != s.owner {
				return "an entry is not contained by the owner of the map"
			}
		}
	}
	return ""
}

func (s *mapSys) Step(i int, check bool) *mc.Viol {
	op := s.ops[i]
	msg := op.do(s)
	kind := strings.Fields(op.name)[0]
	if msg != "" {
		return &mc.Viol{Key: kind + ":result", Msg: msg}
	}
	if check {
		if m := s.observe(); m != "" {
			return &mc.Viol{Key: kind + ":state", Msg: m}
		}
	}
	return nil
}

func mapOps(object, store bool) []mapOp {
	var ops []mapOp
	add := func(name string, ok func(s *mapSys) bool, do func(s *mapSys) string) {
		ops = append(ops, mapOp{name, do, ok})
	}
	size := func(n int) func(s *mapSys) bool { return func(s *mapSys) bool { return len(s.model) >= n } }
	room := func(n int) func(s *mapSys) bool { return func(s *mapSys) bool { return len(s.model)+n <= 4 } }
	for _, k := range mapKeys {
		for _, v := range mapVals {
			k, v := k, v
			add(fmt.Sprintf("put %v=%v", k, v), room(1), func(s *mapSys) string {
				s.theMap().Put(k, v)
				if i := s.first(k); i >= 0 {
					s.model[i].v = v
				} else {
					s.model = append(s.model, mapEnt{k: k, v: v})
				}
				return ""
			})
		}
	}
	for _, k := range mapKeys[:2] {
		k := k
		add(fmt.Sprintf("removekey %v", k), nil, func(s *mapSys) string {
			got := s.theMap().RemoveKey(k)
			var want any
			if i := s.first(k); i >= 0 {
				want = s.del(i).v
			}
			if got != want {
				return fmt.Sprintf("RemoveKey(%v)=%v, not %v", k, got, want)
			}
			return ""
		})
		add(fmt.Sprintf("addentry %v", k), room(1), func(s *mapSys) string {
			e := s.mk(k, "w")
			s.theMap().Add(e)
			s.ins(len(s.model), mapEnt{k, "w", e})
			return ""
		})
		add(fmt.Sprintf("insertentry0 %v", k), room(1), func(s *mapSys) string {
			e := s.mk(k, "w")
			s.theMap().Insert(0, e)
			s.ins(0, mapEnt{k, "w", e})
			return ""
		})
		add(fmt.Sprintf("setentry0 %v", k), size(1), func(s *mapSys) string {
			e := s.mk(k, "w")
			s.theMap().Set(0, e)
			s.model[0] = mapEnt{k, "w", e}
			return ""
		})
	}
	add("addall k,m", room(2), func(s *mapSys) string {
		a, b := s.mk("k", "v"), s.mk("m", "w")
		s.theMap().AddAll(ecore.NewImmutableEList([]any{a, b}))
		s.ins(len(s.model), mapEnt{"k", "v", a}, mapEnt{"m", "w", b})
		return ""
	})
	add("insertall0 m,l", room(2), func(s *mapSys) string {
		a, b := s.mk("m", "v"), s.mk("l", "w")
		s.theMap().InsertAll(0, ecore.NewImmutableEList([]any{a, b}))
		s.ins(0, mapEnt{"m", "v", a}, mapEnt{"l", "w", b})
		return ""
	})
	add("removeat0", size(1), func(s *mapSys) string { s.theMap().RemoveAt(0); s.del(0); return "" })
	add("removelast", size(2), func(s *mapSys) string {
		s.theMap().Remove(s.m.Get(len(s.model) - 1))
		s.del(len(s.model) - 1)
		return ""
	})
	add("removeall 0,1", size(2), func(s *mapSys) string {
		m := s.theMap()
		m.RemoveAll(ecore.NewImmutableEList([]any{m.Get(1), m.Get(0)}))
		s.del(0)
		s.del(0)
		return ""
	})
	add("removerange 0..2", size(2), func(s *mapSys) string {
		s.theMap().RemoveRange(0, 2)
		s.del(0)
		s.del(0)
		return ""
	})
	add("move 1->0", size(2), func(s *mapSys) string {
		s.theMap().Move(1, 0)
		s.ins(0, s.del(1))
		return ""
	})
	add("move 0->last", size(2), func(s *mapSys) string {
		n := len(s.model) - 1
		s.theMap().Move(0, n)
		e := s.del(0)
		s.ins(n, e)
		return ""
	})
	add("clear", nil, func(s *mapSys) string { s.theMap().Clear(); s.model = nil; return "" })
	add("read", nil, func(s *mapSys) string { s.theMap().GetValue("k"); return "" })
	if object {
		add("unset", nil, func(s *mapSys) string { s.owner.EUnset(s.f); s.model = nil; return "" })
		add("setfeature l", nil, func(s *mapSys) string {
			e := s.mk("l", "v")
			s.owner.ESet(s.f, ecore.NewImmutableEList([]any{e}))
			s.model = []mapEnt{{"l", "v", e}}
			return ""
		})
	}
	if store {
		for _, c := range []bool{false, true} {
			c := c
			add(fmt.Sprintf("cache %v", c), nil, func(s *mapSys) string { s.owner.(ecore.ECacheProvider).SetCache(c); return "" })
		}
		add("store-off", func(s *mapSys) bool { return !s.off }, func(s *mapSys) string {
			s.theMap()
			s.owner.(ecore.EStoreProvider).SetEStore(nil)
			s.off = true
			return ""
		})
		add("store-on", func(s *mapSys) bool { return s.off }, func(s *mapSys) string {
			s.st.lists[memKey{s.owner, s.f}] = append([]any{}, s.theMap().ToArray()...)
			s.owner.(ecore.EStoreProvider).SetEStore(s.st)
			s.off = false
			return ""
		})
	}
	return ops
}

// storeEntry is a map entry that is itself a store object.
type storeEntry struct {
	ecore.EStoreEObjectImpl
}

func (o *storeEntry) f(n string) ecore.EStructuralFeature {
	return o.EClass().GetEStructuralFeatureFromName(n)
}
func (o *storeEntry) GetKey() any    { return o.EGet(o.f("key")) }
func (o *storeEntry) SetKey(k any)   { o.ESet(o.f("key"), k) }
func (o *storeEntry) GetValue() any  { return o.EGet(o.f("value")) }
func (o *storeEntry) SetValue(v any) { o.ESet(o.f("value"), v) }

type entryFactory struct {
	ecore.EFactoryExt
	cache bool
}

func (f *entryFactory) Create(c ecore.EClass) ecore.EObject {
	if c.GetName() == "E" {
		e := &storeEntry{}
		e.SetInterfaces(e)
		e.SetCache(f.cache)
		e.Initialize()
		e.SetEClass(c)
		return e
	}
	return f.EFactoryExt.Create(c)
}

func c06Items(tier string) []mc.Item {
	var items []mc.Item
	add := func(name string, mk func() *mapSys) {
		items = append(items, mc.Item{Name: name, Run: func(c *mc.Ctx) {
			s0 := mk()
			var names []string
			for _, o := range s0.ops {
				names = append(names, o.name)
			}
			e := &mc.Explore{Ops: names, New: func() mc.Machine { return mk() }, MaxDepth: 5, NoDedup: 2, Variety: 6, KeyPrefix: name + ":"}
			if tier == "thorough" {
				e.MaxDepth, e.NoDedup, e.Variety = 6, 3, 12
			}
			e.Run(c)
			c.Res.Traces = c.Res.Transitions
		}})
	}
	plain := mapOps(false, false)
	add("plain-map", func() *mapSys {
		return &mapSys{m: ecore.NewBasicEMap(), ops: plain, mk: func(k, v any) ecore.EMapEntry { return &entry{k, v} }}
	})
	specs := []cspec{
		{name: "E", mapEntry: true, feats: []fspec{{name: "key", typ: "string"}, {name: "value", typ: "string"}}},
		{name: "N", feats: []fspec{{name: "map", typ: "E", ref: true, many: true, cont: true}}},
	}
	objOps, storeOps := mapOps(true, false), mapOps(true, true)
	var m, ms *mm
	world := func(stored bool) *mm {
		if m == nil {
			m = newMM("http://c06", specs)
			ms = newMM("http://c06s", specs)
			f := &entryFactory{}
			f.SetInterfaces(f)
			f.Initialize()
			ms.pkg.SetEFactoryInstance(f)
		}
		if stored {
			return ms
		}
		return m
	}
	for _, kind := range allKinds {
		for _, stored := range []bool{false, true} {
			kind, stored := kind, stored
			isStore := strings.HasPrefix(kind, "estore")
			if stored && !isStore {
				continue
			}
			name := kind
			if stored {
				name += "-storeentries"
			}
			add(name, func() *mapSys {
				w := world(stored)
				st := newMemStore()
				s := &mapSys{owner: newObj(kind, w.c("N"), st), f: w.f("N.map"), st: st, kind: kind, isStore: isStore, ops: objOps}
				if isStore {
					s.ops = storeOps
					s.off = !strings.HasPrefix(kind, kStoreMem)
				}
				s.mk = func(k, v any) ecore.EMapEntry {
					e := w.pkg.GetEFactoryInstance().Create(w.c("E")).(ecore.EMapEntry)
					e.SetKey(k)
					e.SetValue(v)
					return e
				}
				return s
			})
		}
	}
	items = append(items, mc.Item{Name: "immutable", Run: func(c *mc.Ctx) {
		// every sequence of up to 3 entries with distinct keys
		var rec func(es []mapEnt)
		rec = func(es []mapEnt) {
			var arr []any
			for _, e := range es {
				arr = append(arr, e.e)
			}
			s := &mapSys{m: ecore.NewImmutableEMap(arr), model: es}
			var msg string
			if p := mc.Panics(func() { msg = s.observe() }); p != "" {
				msg = "panic: " + p
			}
			if msg != "" {
				c.Failf("immutable", "%s", msg)
			}
			for name, do := range map[string]func(){"Put": func() { s.m.Put("k", "z") }, "RemoveKey": func() { s.m.RemoveKey("k") }, "Clear": func() { s.m.Clear() }, "Add": func() { s.m.Add(&entry{"z", "z"}) }} {
				if p := mc.Panics(do); p == "" {
					c.Failf("immutable:"+name, "%s of an immutable map is not rejected", name)
				}
			}
			if msg := s.observe(); msg != "" {
				c.Failf("immutable", "after rejected changes: %s", msg)
			}
			c.Eval(s.Key())
			if len(es) == 3 {
				return
			}
			for _, k := range mapKeys {
				if s.first(k) < 0 {
					for _, v := range mapVals {
						rec(append(append([]mapEnt{}, es...), mapEnt{k, v, &entry{k, v}}))
					}
				}
			}
		}
		rec(nil)
	}})
	return items
}
