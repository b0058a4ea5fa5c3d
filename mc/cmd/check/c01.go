package main

import (
	"fmt"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

func init() {
	register(&mc.Check{ID: "C01", Level: "model_checking",
		Rule:        "every history of list operations (all operations × all indexes from -1 to size+1 × all elements and small collections, including the list itself) on every list kind, breadth-first with states merged by contents and last operation; after every operation every reading operation is compared with a plain slice",
		Assumptions: []string{"lists of at most 4 (thorough: 5) elements over 3 (4) distinct elements", "the store behind store-backed lists is the harness' in-memory reference store"},
		Items:       c01Items})
}

type listScenario struct {
	name string
	mk   func() *listSys
}

// adders are the elements' factories used by the in-memory scenarios
func c01Scenarios(thorough bool) []listScenario {
	n, max := 3, 4
	if thorough {
		n, max = 4, 5
	}
	colls := [][]int{{}, {0}, {1, 0}, {2, 1, 2}, {0, 1, 2}}
	ops := listAlphabet(n, max, colls)
	ints := make([]any, n)
	for i := range ints {
		ints[i] = fmt.Sprintf("v%d", i)
	}
	var sc []listScenario
	plain := func(name string, unique bool, mk func() ecore.EList) {
		sc = append(sc, listScenario{name, func() *listSys {
			return &listSys{list: mk(), unique: unique, elems: ints, ops: ops, max: max}
		}})
	}
	plain("basic", false, func() ecore.EList { return ecore.NewEmptyBasicEList() })
	plain("basic-fromdata", false, func() ecore.EList { return ecore.NewBasicEList(make([]any, 0, 3)) })
	plain("basic-unique", true, func() ecore.EList { return ecore.NewUniqueBasicEList([]any{}) })
	plain("notifying", true, func() ecore.EList { return ecore.NewBasicENotifyingList() })
	for _, pre := range [][]int{{}, {0}, {1, 0, 2}} {
		pre := pre
		sc = append(sc, listScenario{fmt.Sprintf("immutable%d", len(pre)), func() *listSys {
			var d []any
			for _, e := range pre {
				d = append(d, ints[e])
			}
			var l ecore.EList = ecore.NewImmutableEList(d)
			if len(pre) == 0 {
				l = ecore.NewEmptyImmutableEList()
			}
			return &listSys{list: l, elems: ints, ops: ops, max: max, immutable: true, model: cp(pre)}
		}})
	}
	mm := newMM("http://c01", []cspec{{name: "N", feats: []fspec{
		{name: "tags", typ: "string", many: true, nonUnique: true},
		{name: "utags", typ: "string", many: true},
		{name: "children", typ: "N", ref: true, many: true, cont: true},
		{name: "childrenNP", typ: "N", ref: true, many: true, cont: true, noResolve: true},
		{name: "refs", typ: "N", ref: true, many: true},
		{name: "refsNP", typ: "N", ref: true, many: true, noResolve: true},
		{name: "kids", typ: "N", ref: true, many: true, cont: true, opp: "N.parent"},
		{name: "parent", typ: "N", ref: true, opp: "N.kids"},
		{name: "ns", typ: "N", ref: true, many: true, opp: "N.ms"},
		{name: "ms", typ: "N", ref: true, many: true, opp: "N.ns"},
		{name: "bag", typ: "string", many: true, nonUnique: true, transient: true},
	}}})
	for _, kind := range allKinds {
		kind := kind
		for _, fn := range []string{"tags", "utags", "children", "childrenNP", "refs", "refsNP", "kids", "ns", "bag"} {
			fn := fn
			// with a store, the generic dynamic kinds share the list code with kDynamic
			if kind == kReflect || kind == kBasic || kind == kCompact || kind == kCompactC {
				if fn != "tags" && fn != "kids" {
					continue
				}
			}
			if fn == "bag" && kind != kDynamic && kind != kReflect && kind != kBasic && kind != kCompact && kind != kCompactC {
				continue // store objects do not keep transient features in a store: nothing to list
			}
			sc = append(sc, listScenario{kind + "." + fn, func() *listSys {
				st := newMemStore()
				f := mm.f("N." + fn)
				o := newObj(kind, mm.c("N"), st)
				s := &listSys{ops: ops, max: max, unique: fn != "tags" && fn != "bag"}
				if ref, _ := f.(ecore.EReference); ref != nil {
					for i := 0; i < n; i++ {
						s.elems = append(s.elems, newObj(kind, mm.c("N"), st))
					}
				} else {
					s.elems = ints
				}
				s.list = o.EGet(f).(ecore.EList)
				_, isRef := f.(ecore.EReference)
				s.extra = func(model []int, check bool) string {
					if !check {
						return ""
					}
					if l := o.EGet(f).(ecore.EList); l != s.list {
						return "EGet returned another list"
					}
					if isRef {
						if ol, ok := s.list.(ecore.EObjectList); ok {
							if m := s.observeList(ol.GetUnResolvedList(), model, s.val); m != "" {
								return "unresolved view: " + m
							}
						}
					}
					if kind == kStoreMem || kind == kStoreMemC {
						got := st.ToArray(o, f)
						if len(got) != len(model) {
							return fmt.Sprintf("store holds %d elements, list is %s", len(got), s.show(model))
						}
						for i, e := range model {
							if got[i] != s.val(e) {
								return fmt.Sprintf("store holds %s at %d, list is %s", s.name(got[i]), i, s.show(model))
							}
						}
					}
					return ""
				}
				return s
			}})
			// the unresolved view is itself a list: mutate through it
			if ref, _ := mm.f("N." + fn).(ecore.EReference); ref != nil && (kind == kDynamic || kind == kStore || kind == kStoreMem || kind == kStoreMemC) {
				base := sc[len(sc)-1]
				sc = append(sc, listScenario{kind + "." + fn + ".unresolved", func() *listSys {
					s := base.mk()
					full := s.list
					ol, ok := full.(ecore.EObjectList)
					if !ok {
						return s
					}
					s.list = ol.GetUnResolvedList()
					s.extra = func(model []int, check bool) string {
						if !check {
							return ""
						}
						if m := s.observeList(full, model, s.val); m != "" {
							return "resolved view: " + m
						}
						return ""
					}
					return s
				}})
			}
		}
	}
	// resource contents
	sc = append(sc, listScenario{"resource-contents", func() *listSys {
		r := ecore.NewEResourceImpl()
		s := &listSys{ops: ops, max: max, unique: true, list: r.GetContents()}
		for i := 0; i < n; i++ {
			s.elems = append(s.elems, newObj(kDynamic, mm.c("N"), nil))
		}
		return s
	}})
	sc = append(sc, listScenario{"resourceset-resources", func() *listSys {
		r := ecore.NewEResourceSetImpl()
		s := &listSys{ops: ops, max: max, unique: true, list: r.GetResources()}
		for i := 0; i < n; i++ {
			s.elems = append(s.elems, ecore.NewEResourceImpl())
		}
		return s
	}})
	sc = append(sc, listScenario{"adapters", func() *listSys {
		o := newObj(kDynamic, mm.c("N"), nil)
		s := &listSys{ops: ops, max: max, list: o.EAdapters()}
		for i := 0; i < n; i++ {
			s.elems = append(s.elems, &plainAdapter{})
		}
		return s
	}})
	sc = append(sc, listScenario{"map-entries", func() *listSys {
		m := ecore.NewBasicEMap()
		s := &listSys{ops: ops, max: max, list: m, unique: true}
		for i := 0; i < n; i++ {
			s.elems = append(s.elems, &entry{k: i, v: i * 10})
		}
		return s
	}})
	return sc
}

type plainAdapter struct{ ecore.AbstractEAdapter }

func (a *plainAdapter) NotifyChanged(ecore.ENotification) {}

type entry struct{ k, v any }

func (e *entry) GetKey() any    { return e.k }
func (e *entry) SetKey(k any)   { e.k = k }
func (e *entry) GetValue() any  { return e.v }
func (e *entry) SetValue(v any) { e.v = v }

func c01Items(tier string) []mc.Item {
	var items []mc.Item
	thorough := tier == "thorough"
	for _, sc := range c01Scenarios(thorough) {
		sc := sc
		items = append(items, mc.Item{Name: "list/" + sc.name, Run: func(c *mc.Ctx) {
			s0 := sc.mk()
			names := make([]string, len(s0.ops))
			for i, o := range s0.ops {
				names[i] = o.name
			}
			e := &mc.Explore{Ops: names, New: func() mc.Machine { return sc.mk() }, MaxDepth: 5, Variety: 6, KeyPrefix: sc.name + ":"}
			if thorough {
				e.MaxDepth, e.Variety = 6, 12
			}
			e.Run(c)
			c.Res.Traces = c.Res.Transitions
		}})
	}
	return items
}
