package main

import (
	"fmt"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C11: proxies. A slot holds values p0,p1 (proxies designating t0,t1), t0,t1
// (the designated objects, present in their resource or not). The model is the
// list of designations; every value must be the proxy or, when the designated
// object can be found and the slot resolves, the object. Which proxies an
// operation resolves is up to the code, except for what it returns.

func init() {
	register(&mc.Check{ID: "C11", Level: "model_checking",
		Rule:        "every sequence of operations, up to the depth where no new state appears, on one reference holding up to two proxies or the objects they designate: every way of reading (resolving or not, lists and views), changing the reference, and making the designated objects findable or not; for every kind of reference, every object implementation, hand-made object lists, the references of the base package's classes, and an object contained by a proxy. After every operation the values, the result, the resolve notifications and the containers are compared with the list of designations.",
		Assumptions: []string{"a reference never holds an object and a proxy for the same object at once", "a contained object stays in its resource while its container refers to it"},
		Items:       c11Items})
}

type fnMachine struct {
	key     func() string
	enabled func(int) bool
	step    func(int, bool) *mc.Viol
}

func (m *fnMachine) Key() string                     { return m.key() }
func (m *fnMachine) Enabled(i int) bool              { return m.enabled == nil || m.enabled(i) }
func (m *fnMachine) Step(i int, check bool) *mc.Viol { return m.step(i, check) }

type pxSlot struct {
	owner                 ecore.EObject
	feat                  ecore.EStructuralFeature
	featID                int
	many, resolve         bool
	cont, bidir, uncached bool
	rawList               ecore.EList
	// typed getter of a generated class (nil: none)
	typed func() any
}

func (s *pxSlot) list() ecore.EList {
	if s.rawList != nil {
		return s.rawList
	}
	return s.owner.EGetResolve(s.feat, true).(ecore.EList)
}

func (s *pxSlot) raw() []any {
	if s.many {
		var l ecore.EList = s.list()
		if ol, ok := l.(ecore.EObjectList); ok {
			l = ol.GetUnResolvedList()
		}
		return append([]any{}, l.ToArray()...)
	}
	if v := s.owner.EGetResolve(s.feat, false); !isNil(v) {
		return []any{v}
	}
	return nil
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	o, ok := v.(ecore.EObject)
	return ok && o == nil
}

type pxVal struct {
	d     int // designation
	proxy bool
}

type pxEvent struct {
	typ      ecore.EventType
	notifier any
	feat     any
	pos      int
	old, new any
}

type pxOp struct {
	name    string
	enabled func(m *pxSys) bool
	// run performs the operation and returns what it gave
	run func(m *pxSys) any
	// model changes the designations and says what run must give (nil: anything)
	model func(m *pxSys, st []pxVal) ([]pxVal, func(got any) string)
	// resolving: the operation may resolve proxies
	resolving bool
	read      bool
}

type pxSys struct {
	slot   *pxSlot
	ts, ps []ecore.EObject
	res    []ecore.EResource
	avail  []bool
	state  []pxVal
	ops    []pxOp
	events []pxEvent
	extra  func() string
}

func (m *pxSys) name(v any) string {
	for i := range m.ts {
		if v == any(m.ts[i]) {
			return fmt.Sprintf("t%d", i)
		}
		if v == any(m.ps[i]) {
			return fmt.Sprintf("p%d", i)
		}
	}
	if isNil(v) {
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func (m *pxSys) val(v pxVal) ecore.EObject {
	if v.proxy {
		return m.ps[v.d]
	}
	return m.ts[v.d]
}

func (m *pxSys) show(st []pxVal) string {
	var r []string
	for _, v := range st {
		r = append(r, m.name(m.val(v)))
	}
	return "[" + strings.Join(r, " ") + "]"
}

func (m *pxSys) showRaw(vs []any) string {
	var r []string
	for _, v := range vs {
		r = append(r, m.name(v))
	}
	return "[" + strings.Join(r, " ") + "]"
}

func (m *pxSys) has(d int) bool {
	for _, v := range m.state {
		if v.d == d {
			return true
		}
	}
	return false
}

// final is what a resolving read of v gives
func (m *pxSys) final(v pxVal) ecore.EObject {
	if v.proxy && m.slot.resolve && m.avail[v.d] {
		return m.ts[v.d]
	}
	return m.val(v)
}

func (m *pxSys) find(st []pxVal, x pxVal) int {
	for i, v := range st {
		if v == x || (x.proxy == false && v.d == x.d && m.final(v) == m.ts[x.d]) {
			return i
		}
	}
	return -1
}

func (m *pxSys) Enabled(i int) bool { return m.ops[i].enabled == nil || m.ops[i].enabled(m) }
func (m *pxSys) Key() string        { return m.show(m.state) + fmt.Sprint(m.avail) }

type pxAdapter struct {
	ecore.AbstractEAdapter
	m *pxSys
}

func (a *pxAdapter) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() == ecore.REMOVING_ADAPTER {
		return
	}
	a.m.events = append(a.m.events, pxEvent{n.GetEventType(), n.GetNotifier(), n.GetFeature(), n.GetPosition(), n.GetOldValue(), n.GetNewValue()})
}

func (m *pxSys) Step(i int, check bool) *mc.Viol {
	op := &m.ops[i]
	bad := func(f string, a ...any) *mc.Viol {
		return mkViol("proxy:"+strings.SplitN(op.name, "(", 2)[0], "%s", op.name+" on "+m.show(m.state)+fmt.Sprint(" available ", m.avail)+": "+fmt.Sprintf(f, a...))
	}
	m.events = nil
	var got any
	if p := mc.Panics(func() { got = op.run(m) }); p != "" {
		return bad("panicked: %s\n%s", p, mc.LastStack())
	}
	want, res := append([]pxVal{}, m.state...), (func(any) string)(nil)
	if op.model != nil {
		want, res = op.model(m, want)
	}
	raw := m.slot.raw()
	events := m.events
	if len(raw) != len(want) {
		return bad("the reference holds %s afterwards, expected %s", m.showRaw(raw), m.show(want))
	}
	next := make([]pxVal, len(want))
	nres := map[int]int{}
	for k, w := range want {
		switch {
		case raw[k] == any(m.val(w)):
			next[k] = w
		case raw[k] == any(m.final(w)) && op.resolving:
			next[k] = pxVal{w.d, false}
			nres[w.d]++
		default:
			return bad("the reference holds %s afterwards, expected %s%s", m.showRaw(raw), m.show(want), map[bool]string{true: " (or resolved)", false: ""}[op.resolving])
		}
	}
	if res != nil {
		if s := res(got); s != "" {
			return bad("%s", s)
		}
	}
	// resolve notifications
	seen := map[int]int{}
	for _, e := range events {
		if e.typ != ecore.RESOLVE {
			if op.read {
				return bad("a reading operation sent a notification of type %d", e.typ)
			}
			continue
		}
		if e.notifier != any(m.slot.owner) {
			return bad("a resolve notification has %T as notifier", e.notifier)
		}
		if e.feat != any(m.slot.feat) {
			return bad("a resolve notification of another feature: %v", e.feat)
		}
		d := -1
		for k := range m.ps {
			if e.old == any(m.ps[k]) && e.new == any(m.ts[k]) {
				d = k
			}
		}
		if d < 0 {
			return bad("a resolve notification tells of %s replaced by %s", m.name(e.old), m.name(e.new))
		}
		if m.slot.many {
			at := -1
			for k, v := range m.state {
				if v.d == d {
					at = k
				}
			}
			// position before or after the change made by the operation itself
			at2 := -1
			for k, v := range want {
				if v.d == d {
					at2 = k
				}
			}
			if e.pos != at && e.pos != at2 {
				return bad("a resolve notification tells of position %d, it is %d", e.pos, at)
			}
		} else if e.pos != ecore.NO_INDEX {
			return bad("a resolve notification of a single reference tells of position %d", e.pos)
		}
		seen[d]++
	}
	for d := range m.ts {
		was, is := false, false
		for _, v := range m.state {
			was = was || (v.d == d && v.proxy)
		}
		for _, v := range want {
			is = is || v.d == d
		}
		switch {
		case m.slot.uncached:
			if seen[d] > 0 && !(was && m.avail[d]) && nres[d] == 0 {
				return bad("a resolve notification for p%d that was not there to resolve", d)
			}
		case nres[d] > 0 && seen[d] != 1:
			return bad("p%d was replaced by t%d with %d resolve notifications", d, d, seen[d])
		case nres[d] == 0 && seen[d] > 0 && is:
			return bad("%d resolve notifications for p%d that was not replaced", seen[d], d)
		case seen[d] > 1:
			return bad("%d resolve notifications for p%d", seen[d], d)
		}
	}
	m.state = next
	if check {
		if s := m.links(); s != "" {
			return bad("%s", s)
		}
	}
	return nil
}

// links checks the containers of the values of a containment slot.
func (m *pxSys) links() string {
	if m.extra != nil {
		if s := m.extra(); s != "" {
			return s
		}
	}
	if !m.slot.cont {
		return ""
	}
	for d := range m.ts {
		for _, px := range []bool{false, true} {
			if m.slot.uncached && px {
				continue
			}
			in := false
			for _, v := range m.state {
				in = in || v == pxVal{d, px}
				if m.slot.uncached && v.d == d {
					in = true
				}
			}
			o := m.val(pxVal{d, px})
			c := o.(ecore.EObjectInternal).EInternalContainer()
			if m.slot.uncached && c == nil {
				continue // resolved on demand only
			}
			if in != (c == m.slot.owner) || (!in && c != nil) {
				return fmt.Sprintf("the reference holds %s, the container of %s is %v", m.show(m.state), m.name(o), m.name(c))
			}
			if in && !m.slot.bidir && o.EContainmentFeature() != m.slot.feat {
				return fmt.Sprintf("%s is contained by %v instead of %v", m.name(o), o.EContainmentFeature(), m.slot.feat)
			}
		}
	}
	return ""
}

func pxOps(slot *pxSlot, n int, targets bool) []pxOp {
	var ops []pxOp
	many := slot.many
	var vals []pxVal
	for d := 0; d < n; d++ {
		vals = append(vals, pxVal{d, true})
	}
	if targets {
		for d := 0; d < n; d++ {
			vals = append(vals, pxVal{d, false})
		}
	}
	nm := func(v pxVal) string {
		if v.proxy {
			return fmt.Sprintf("p%d", v.d)
		}
		return fmt.Sprintf("t%d", v.d)
	}
	expect := func(m *pxSys, what string, w any) func(any) string {
		return func(got any) string {
			if got != w {
				g, ws := fmt.Sprint(got), fmt.Sprint(w)
				if _, ok := w.(ecore.EObject); ok {
					g, ws = m.name(got), m.name(w)
				}
				if _, ok := got.(ecore.EObject); ok {
					g = m.name(got)
				}
				return fmt.Sprintf("%s gave %s, expected %s", what, g, ws)
			}
			return ""
		}
	}
	either := func(m *pxSys, v pxVal) func(any) string {
		return func(got any) string {
			if got != any(m.val(v)) && got != any(m.final(v)) {
				return fmt.Sprintf("gave %s, expected %s", m.name(got), m.name(m.val(v)))
			}
			return ""
		}
	}
	all := func(m *pxSys, st []pxVal, res bool) string {
		var r []any
		for _, v := range st {
			if res {
				r = append(r, m.final(v))
			} else {
				r = append(r, m.val(v))
			}
		}
		return m.showRaw(r)
	}
	free := func(v pxVal) func(m *pxSys) bool {
		return func(m *pxSys) bool { return !m.has(v.d) }
	}
	add := func(o pxOp) { ops = append(ops, o) }
	for d := 0; d < n; d++ {
		add(pxOp{name: fmt.Sprintf("findable(t%d)", d), enabled: func(m *pxSys) bool { return !m.avail[d] && (!m.slot.cont || m.slot.resolve || !m.has(d)) },
			run: func(m *pxSys) any { m.res[d].GetContents().Add(m.ts[d]); m.avail[d] = true; return nil }})
		add(pxOp{name: fmt.Sprintf("lost(t%d)", d), enabled: func(m *pxSys) bool { return m.avail[d] && (!m.slot.cont || !m.has(d)) },
			run: func(m *pxSys) any { m.res[d].GetContents().Remove(m.ts[d]); m.avail[d] = false; return nil }})
	}
	if !many {
		for _, v := range vals {
			add(pxOp{name: "set(" + nm(v) + ")", enabled: func(m *pxSys) bool {
				return (len(m.state) == 0 || m.state[0] != v) && (!m.slot.cont || !m.has(v.d))
			},
				run:   func(m *pxSys) any { m.slot.owner.ESet(m.slot.feat, m.val(v)); return nil },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return []pxVal{v}, nil }})
		}
		add(pxOp{name: "unset()", run: func(m *pxSys) any { m.slot.owner.EUnset(m.slot.feat); return nil },
			model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return nil, nil }})
		get := func(name string, f func(m *pxSys) any, res bool) {
			add(pxOp{name: name, read: true, resolving: res, run: f,
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
					return st, func(got any) string {
						if len(st) == 0 {
							if !isNil(got) {
								return "gave " + m.name(got) + ", expected nil"
							}
							return ""
						}
						w := m.val(st[0])
						if res {
							w = m.final(st[0])
						}
						return expect(m, "it", w)(got)
					}
				}})
		}
		get("get()", func(m *pxSys) any { return m.slot.owner.EGet(m.slot.feat) }, true)
		get("getResolve(true)", func(m *pxSys) any { return m.slot.owner.EGetResolve(m.slot.feat, true) }, true)
		get("getResolve(false)", func(m *pxSys) any { return m.slot.owner.EGetResolve(m.slot.feat, false) }, false)
		if slot.typed != nil {
			get("typed()", func(m *pxSys) any { return m.slot.typed() }, true)
		}
	} else {
		lst := func(m *pxSys) ecore.EList { return m.slot.list() }
		un := func(m *pxSys) ecore.EList {
			l := m.slot.list()
			if o, ok := l.(ecore.EObjectList); ok {
				return o.GetUnResolvedList()
			}
			return l
		}
		for _, v := range vals {
			add(pxOp{name: "add(" + nm(v) + ")", enabled: free(v), resolving: true,
				run:   func(m *pxSys) any { return lst(m).Add(m.val(v)) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return append(st, v), expect(m, "it", true) }})
			add(pxOp{name: "insert0(" + nm(v) + ")", enabled: func(m *pxSys) bool { return !m.has(v.d) && len(m.state) > 0 }, resolving: true,
				run: func(m *pxSys) any { return lst(m).Insert(0, m.val(v)) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
					return append([]pxVal{v}, st...), expect(m, "it", true)
				}})
			add(pxOp{name: "set0(" + nm(v) + ")", enabled: func(m *pxSys) bool { return !m.has(v.d) && len(m.state) > 0 }, resolving: true,
				run: func(m *pxSys) any { return lst(m).Set(0, m.val(v)) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
					old := st[0]
					st[0] = v
					return st, either(m, old)
				}})
		}
		for d := 0; d < n; d++ {
			for _, v := range []pxVal{{d, true}, {d, false}} {
				add(pxOp{name: "remove(" + nm(v) + ")", resolving: true,
					run: func(m *pxSys) any { return lst(m).Remove(m.val(v)) },
					model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
						k := m.find(st, v)
						if k < 0 {
							return st, expect(m, "it", false)
						}
						return append(st[:k:k], st[k+1:]...), expect(m, "it", true)
					}})
				add(pxOp{name: "contains(" + nm(v) + ")", resolving: true, read: true,
					run:   func(m *pxSys) any { return lst(m).Contains(m.val(v)) },
					model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return st, expect(m, "it", m.find(st, v) >= 0) }})
				add(pxOp{name: "indexOf(" + nm(v) + ")", resolving: true, read: true,
					run:   func(m *pxSys) any { return lst(m).IndexOf(m.val(v)) },
					model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return st, expect(m, "it", m.find(st, v)) }})
				exact := func(st []pxVal) int {
					for k, x := range st {
						if x == v {
							return k
						}
					}
					return -1
				}
				add(pxOp{name: "unresolvedIndexOf(" + nm(v) + ")", read: true,
					run:   func(m *pxSys) any { return un(m).IndexOf(m.val(v)) },
					model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return st, expect(m, "it", exact(st)) }})
				add(pxOp{name: "unresolvedContains(" + nm(v) + ")", read: true,
					run:   func(m *pxSys) any { return un(m).Contains(m.val(v)) },
					model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return st, expect(m, "it", exact(st) >= 0) }})
			}
		}
		for k := 0; k < n; k++ {
			ok := func(m *pxSys) bool { return k < len(m.state) }
			add(pxOp{name: fmt.Sprintf("get(%d)", k), enabled: ok, resolving: true, read: true,
				run:   func(m *pxSys) any { return lst(m).Get(k) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return st, expect(m, "it", m.final(st[k])) }})
			add(pxOp{name: fmt.Sprintf("unresolvedGet(%d)", k), enabled: ok, read: true,
				run:   func(m *pxSys) any { return un(m).Get(k) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return st, expect(m, "it", m.val(st[k])) }})
			add(pxOp{name: fmt.Sprintf("removeAt(%d)", k), enabled: ok, resolving: true,
				run: func(m *pxSys) any { return lst(m).RemoveAt(k) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
					old := st[k]
					return append(st[:k:k], st[k+1:]...), either(m, old)
				}})
		}
		add(pxOp{name: "move(1,0)", enabled: func(m *pxSys) bool { return len(m.state) > 1 }, resolving: true,
			run: func(m *pxSys) any { return lst(m).Move(1, 0) },
			model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
				st[0], st[1] = st[1], st[0]
				return st, either(m, st[0])
			}})
		add(pxOp{name: "clear()", resolving: true, run: func(m *pxSys) any { lst(m).Clear(); return nil },
			model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) { return nil, nil }})
		iter := func(name string, res bool, f func(m *pxSys) []any) {
			add(pxOp{name: name, resolving: res, read: true,
				run: func(m *pxSys) any { return m.showRaw(f(m)) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
					return st, expect(m, "it", all(m, st, res))
				}})
		}
		drain := func(it ecore.EIterator) []any {
			var r []any
			for it.HasNext() {
				r = append(r, it.Next())
			}
			return r
		}
		seq := func(l ecore.EList) []any {
			var r []any
			for v := range l.All() {
				r = append(r, v)
			}
			return r
		}
		iter("toArray()", true, func(m *pxSys) []any { return lst(m).ToArray() })
		iter("iterator()", true, func(m *pxSys) []any { return drain(lst(m).Iterator()) })
		iter("all()", true, func(m *pxSys) []any { return seq(lst(m)) })
		iter("unresolvedIterator()", false, func(m *pxSys) []any { return drain(un(m).Iterator()) })
		iter("unresolvedAll()", false, func(m *pxSys) []any { return seq(un(m)) })
	}
	if slot.rawList == nil {
		views := func(name string, res bool, f func(m *pxSys) ecore.EList) {
			add(pxOp{name: name, resolving: res, read: true,
				run: func(m *pxSys) any {
					var r []any
					for it := f(m).Iterator(); it.HasNext(); {
						v := it.Next()
						if n := m.name(v); n[0] == 't' || n[0] == 'p' {
							r = append(r, v)
						}
					}
					return m.showRaw(r)
				},
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
					return st, expect(m, "it", all(m, st, res))
				}})
		}
		if slot.cont {
			views("eContents()", true, func(m *pxSys) ecore.EList { return m.slot.owner.EContents() })
			views("eContentsUnresolved()", false, func(m *pxSys) ecore.EList {
				return m.slot.owner.EContents().(ecore.EObjectList).GetUnResolvedList()
			})
		} else {
			views("eCrossReferences()", true, func(m *pxSys) ecore.EList { return m.slot.owner.ECrossReferences() })
			views("eCrossReferencesUnresolved()", false, func(m *pxSys) ecore.EList {
				return m.slot.owner.ECrossReferences().(ecore.EObjectList).GetUnResolvedList()
			})
			// resolving everything leaves no proxy that can be resolved
			add(pxOp{name: "resolveAll()", resolving: true, read: true,
				run: func(m *pxSys) any { ecore.ResolveAll(m.slot.owner); return m.showRaw(m.slot.raw()) },
				model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
					if m.slot.uncached {
						return st, nil
					}
					return st, expect(m, "it left", all(m, st, true))
				}})
		}
		add(pxOp{name: "isSet()", read: true,
			run: func(m *pxSys) any { return m.slot.owner.EIsSet(m.slot.feat) },
			model: func(m *pxSys, st []pxVal) ([]pxVal, func(any) string) {
				return st, expect(m, "it", len(st) > 0)
			}})
	}
	return ops
}

type pxScenario struct {
	name    string
	n       int
	targets bool
	key     string
	// probe: a list that may not resolve its proxies at all (one finding of its
	// own); everything else is then decided for a list that does not resolve
	probe bool
	deaf  *bool
	// mk makes the slot, the designated objects and their proxies
	mk func() (slot *pxSlot, ts, ps []ecore.EObject)
}

func (sc *pxScenario) build() *pxSys {
	slot, ts, ps := sc.mk()
	if sc.deaf != nil && *sc.deaf {
		slot.resolve = false
	}
	m := &pxSys{slot: slot, ts: ts, ps: ps, avail: make([]bool, len(ts))}
	set := ecore.NewEResourceSetImpl()
	r := ecore.NewEResourceImpl()
	r.SetURI(ecore.NewURI("mem:/main"))
	set.GetResources().Add(r)
	r.GetContents().Add(slot.owner)
	for i := range ts {
		u := fmt.Sprintf("mem:/r%d", i)
		t := ecore.NewEResourceImpl()
		t.SetURI(ecore.NewURI(u))
		set.GetResources().Add(t)
		m.res = append(m.res, t)
		ps[i].(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(u + "#/"))
	}
	slot.owner.EAdapters().Add(&pxAdapter{m: m})
	m.ops = pxOps(slot, len(ts), sc.targets)
	return m
}

func (sc *pxScenario) item() mc.Item {
	return mc.Item{Name: "slot/" + sc.name, Run: func(c *mc.Ctx) {
		if sc.probe {
			s := sc.build()
			s.res[0].GetContents().Add(s.ts[0])
			s.slot.list().Add(s.ps[0])
			deaf := s.slot.list().Get(0) == any(s.ps[0])
			sc.deaf = &deaf
			if deaf {
				c.Viol(*mkViol("dynamic-list", "the list of a resolving many-valued reference never resolves its proxies: Get(0) on [p0] with p0's object in the resource set gave p0"))
			}
		}
		s := sc.build()
		names := make([]string, len(s.ops))
		for i, o := range s.ops {
			names[i] = o.name
		}
		d, v := 6, 2
		if c.Thorough() {
			d, v = 9, 6
		}
		e := &mc.Explore{Ops: names, New: func() mc.Machine { return sc.build() }, MaxDepth: d, Variety: v, KeyPrefix: sc.key}
		e.Run(c)
		c.Res.Traces = c.Res.Transitions
	}}
}

func pxMM() *mm {
	return newMM("http://px", []cspec{{name: "N", feats: []fspec{
		{name: "v", typ: "int"},
		{name: "x", typ: "N", ref: true},
		{name: "xn", typ: "N", ref: true, noResolve: true},
		{name: "xs", typ: "N", ref: true, many: true},
		{name: "xsn", typ: "N", ref: true, many: true, noResolve: true},
		{name: "k", typ: "N", ref: true, cont: true},
		{name: "kn", typ: "N", ref: true, cont: true, noResolve: true},
		{name: "ks", typ: "N", ref: true, many: true, cont: true},
		{name: "kb", typ: "N", ref: true, cont: true, opp: "N.pb"},
		{name: "pb", typ: "N", ref: true, opp: "N.kb"},
		{name: "kbs", typ: "N", ref: true, many: true, cont: true, opp: "N.pbs"},
		{name: "pbs", typ: "N", ref: true, opp: "N.kbs"},
	}}})
}

func c11Scenarios() []pxScenario {
	var scs []pxScenario
	m := pxMM()
	objs := func(kind string, st *memStore, n int) (o ecore.EObject, ts, ps []ecore.EObject) {
		o = newObj(kind, m.c("N"), st)
		for i := 0; i < n; i++ {
			ts = append(ts, newObj(kind, m.c("N"), st))
			ps = append(ps, newObj(kind, m.c("N"), st))
		}
		return
	}
	for _, kind := range allKinds {
		for _, fn := range []string{"x", "xn", "xs", "xsn", "k", "kn", "ks", "kb", "kbs"} {
			f := m.f("N." + fn)
			r := f.(ecore.EReference)
			n := 2
			if f.IsMany() {
				n = 3
			}
			sc := pxScenario{name: fn + "/" + kind, n: n, targets: true, key: fn + "/" + kind + ":"}
			store := strings.HasPrefix(kind, "estore")
			sc.mk = func() (*pxSlot, []ecore.EObject, []ecore.EObject) {
				o, ts, ps := objs(kind, newMemStore(), n)
				s := &pxSlot{owner: o, feat: f, featID: m.c("N").GetFeatureID(f), many: f.IsMany(), resolve: r.IsResolveProxies(),
					cont: r.IsContainment(), bidir: r.GetEOpposite() != nil, uncached: kind == kStoreMem && f.IsMany()}
				return s, ts, ps
			}
			if f.IsMany() && r.IsResolveProxies() && !store {
				sc.probe = true
			}
			scs = append(scs, sc)
		}
		// object lists with each way of linking made directly over an object
		if kind == kDynamic || kind == kCompact || kind == kReflect {
			for _, fn := range []string{"xs", "ks", "kbs"} {
				f := m.f("N." + fn)
				r := f.(ecore.EReference)
				sc := pxScenario{name: "list-" + fn + "/" + kind, n: 2, targets: true, key: "list-" + fn + "/" + kind + ":"}
				sc.mk = func() (*pxSlot, []ecore.EObject, []ecore.EObject) {
					o, ts, ps := objs(kind, nil, 2)
					inv := -1
					if r.GetEOpposite() != nil {
						inv = r.GetEOpposite().GetFeatureID()
					}
					l := ecore.NewBasicEObjectList(o.(ecore.EObjectInternal), f.GetFeatureID(), inv, r.IsContainment(), r.IsContainment(), r.GetEOpposite() != nil, true, false)
					s := &pxSlot{owner: o, feat: f, featID: f.GetFeatureID(), many: true, resolve: true, cont: r.IsContainment(), bidir: r.GetEOpposite() != nil, rawList: l}
					return s, ts, ps
				}
				scs = append(scs, sc)
			}
		}
	}
	// generated classes
	fac, pkg := ecore.GetFactory(), ecore.GetPackage()
	gen := func(name string, f ecore.EStructuralFeature, owner, val func() ecore.EObject, typed func(o ecore.EObject) any) {
		r := f.(ecore.EReference)
		scs = append(scs, pxScenario{name: "ecore-" + name, n: 2, targets: true, key: "ecore-" + name + ":", mk: func() (*pxSlot, []ecore.EObject, []ecore.EObject) {
			s := &pxSlot{owner: owner(), feat: f, many: f.IsMany(), resolve: r.IsResolveProxies(), cont: r.IsContainment()}
			if typed != nil {
				s.typed = func() any {
					v := typed(s.owner)
					if isNil(v) {
						return nil
					}
					return v
				}
			}
			s.featID = s.owner.EClass().GetFeatureID(f)
			return s, []ecore.EObject{val(), val()}, []ecore.EObject{val(), val()}
		}})
	}
	cls := func() ecore.EObject { return fac.CreateEClass() }
	attr := func() ecore.EObject { return fac.CreateEAttribute() }
	ref := func() ecore.EObject { return fac.CreateEReference() }
	dt := func() ecore.EObject { return fac.CreateEDataType() }
	ann := func() ecore.EObject { return fac.CreateEAnnotation() }
	op := func() ecore.EObject { return fac.CreateEOperation() }
	gt := func() ecore.EObject { return fac.CreateEGenericType() }
	gen("supertypes", pkg.GetEClass_ESuperTypes(), cls, cls, nil)
	gen("reference-type", pkg.GetETypedElement_EType(), ref, cls, func(o ecore.EObject) any { return o.(ecore.EReference).GetEType() })
	gen("attribute-type", pkg.GetETypedElement_EType(), attr, dt, func(o ecore.EObject) any { return o.(ecore.EAttribute).GetEType() })
	gen("operation-type", pkg.GetETypedElement_EType(), op, cls, func(o ecore.EObject) any { return o.(ecore.EOperation).GetEType() })
	gen("opposite", pkg.GetEReference_EOpposite(), ref, ref, func(o ecore.EObject) any { return o.(ecore.EReference).GetEOpposite() })
	gen("keys", pkg.GetEReference_EKeys(), ref, attr, nil)
	gen("annotation-references", pkg.GetEAnnotation_References(), ann, cls, nil)
	gen("exceptions", pkg.GetEOperation_EExceptions(), op, cls, nil)
	gen("generic-classifier", pkg.GetEGenericType_EClassifier(), gt, cls, func(o ecore.EObject) any { return o.(ecore.EGenericType).GetEClassifier() })
	return scs
}

// pxContainer: a child whose container is only known through a proxy.
func pxContainerItem(kind string) mc.Item {
	return mc.Item{Name: "container/" + kind, Run: func(c *mc.Ctx) {
		m := pxMM()
		kb, pb := m.f("N.kb"), m.f("N.pb")
		ops := []string{"child.EContainer", "child.get", "child.getResolve(false)", "child.EInternalContainer", "parent.get", "parent.getResolve(false)", "findable", "lost", "child findable", "parent.EContents"}
		type world struct {
			child, parent, pp, pc ecore.EObject
			rc, rp                ecore.EResource
			events                []pxEvent
			up, down              bool // resolved
			pav, cav              bool
		}
		mk := func() mc.Machine {
			w := &world{}
			st := newMemStore()
			nn := func() ecore.EObject { return newObj(kind, m.c("N"), st) }
			w.child, w.parent, w.pp, w.pc = nn(), nn(), nn(), nn()
			set := ecore.NewEResourceSetImpl()
			w.rc, w.rp = ecore.NewEResourceImpl(), ecore.NewEResourceImpl()
			w.rc.SetURI(ecore.NewURI("mem:/child"))
			w.rp.SetURI(ecore.NewURI("mem:/parent"))
			set.GetResources().Add(w.rc)
			set.GetResources().Add(w.rp)
			w.parent.ESet(kb, w.pc)
			w.pp.ESet(kb, w.child)
			w.rc.GetContents().Add(w.child)
			w.pp.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("mem:/parent#/"))
			w.pc.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("mem:/child#/"))
			w.cav = true
			// an adapter on the child
			name := func(o any) string {
				switch o {
				case any(w.child):
					return "child"
				case any(w.parent):
					return "parent"
				case any(w.pp):
					return "proxy of parent"
				case any(w.pc):
					return "proxy of child"
				}
				if isNil(o) {
					return "nil"
				}
				return fmt.Sprintf("%T", o)
			}
			// a child in its resource under a proxied parent has a resource of its own
			return &fnMachine{
				key: func() string { return fmt.Sprint(w.up, w.down, w.pav, w.cav) },
				enabled: func(i int) bool {
					switch ops[i] {
					case "findable":
						return !w.pav
					case "lost":
						return w.pav && !w.up && !w.down
					case "child findable":
						return false
					}
					return true
				},
				step: func(i int, check bool) *mc.Viol {
					bad := func(f string, a ...any) *mc.Viol {
						return mkViol("container:"+ops[i], "%s: %s", ops[i]+fmt.Sprintf(" (container resolved %v, contents resolved %v, parent found %v)", w.up, w.down, w.pav), fmt.Sprintf(f, a...))
					}
					var got any
					p := mc.Panics(func() {
						switch ops[i] {
						case "child.EContainer":
							got = w.child.EContainer()
						case "child.get":
							got = w.child.EGet(pb)
						case "child.getResolve(false)":
							got = w.child.EGetResolve(pb, false)
						case "child.EInternalContainer":
							got = w.child.(ecore.EObjectInternal).EInternalContainer()
						case "parent.get":
							got = w.parent.EGet(kb)
						case "parent.EContents":
							got = w.parent.EContents().Get(0)
						case "parent.getResolve(false)":
							got = w.parent.EGetResolve(kb, false)
						case "findable":
							w.rp.GetContents().Add(w.parent)
							w.pav = true
						case "lost":
							w.rp.GetContents().Remove(w.parent)
							w.pav = false
						}
					})
					if p != "" {
						return bad("panicked: %s\n%s", p, mc.LastStack())
					}
					rpar, rchild := w.pp, w.pc
					if w.up {
						rpar = w.parent
					}
					if w.down {
						rchild = w.child
					}
					var want any
					switch ops[i] {
					case "child.EContainer", "child.get":
						if w.pav {
							w.up, rpar = true, w.parent
						}
						want = rpar
					case "parent.get", "parent.EContents":
						// the parent can find its child only from its resource set
						if w.pav {
							w.down, rchild = true, w.child
							// the child now is in its real parent
							w.up, rpar = true, w.parent
						}
						want = rchild
					case "child.getResolve(false)", "child.EInternalContainer":
						want = rpar
					case "parent.getResolve(false)":
						want = rchild
					default:
						got = nil
					}
					if got != want {
						if !(isNil(got) && want == nil) {
							return bad("gave %s, expected %s", name(got), name(want))
						}
					}
					if g := w.child.EGetResolve(pb, false); g != any(rpar) {
						return bad("the child's container is %s, expected %s", name(g), name(rpar))
					}
					if g := w.parent.EGetResolve(kb, false); g != any(rchild) {
						return bad("the parent holds %s, expected %s", name(g), name(rchild))
					}
					if w.up {
						if g := w.pp.EGetResolve(kb, false); !isNil(g) {
							return bad("the proxy of the parent still holds %s", name(g))
						}
					}
					if w.down {
						if g := w.pc.EGetResolve(pb, false); !isNil(g) {
							return bad("the proxy of the child is still contained in %s", name(g))
						}
					}
					if g := w.child.EResource(); g != ecore.EResource(w.rc) {
						return bad("the child left its resource")
					}
					return nil
				},
			}
		}
		e := &mc.Explore{Ops: ops, New: mk, MaxDepth: 7, Variety: 4, KeyPrefix: "container/" + kind + ":"}
		e.Run(c)
		c.Res.Traces = c.Res.Transitions
	}}
}

func c11Items(tier string) []mc.Item {
	var items []mc.Item
	for _, sc := range c11Scenarios() {
		items = append(items, (&sc).item())
	}
	for _, k := range allKinds {
		items = append(items, pxContainerItem(k), pxDesignationItem(k))
	}
	return items
}

func mkViol(key, f string, a ...any) *mc.Viol { return &mc.Viol{Key: key, Msg: fmt.Sprintf(f, a...)} }

// pxDesignation: for every object of a small tree a proxy to it, read from
// another resource; through 1..n proxies in between; through the registry of
// packages; and with the document loaded on demand.
func pxDesignationItem(kind string) mc.Item {
	return mc.Item{Name: "designation/" + kind, Run: func(c *mc.Ctx) {
		m := pxMM()
		x := m.f("N.x")
		read := func(what string, holder, p, want ecore.EObject) bool {
			holder.ESet(x, p)
			c.Res.Transitions++
			var got any
			if ps := mc.Panics(func() { got = holder.EGet(x) }); ps != "" {
				return c.Failf("designation", "%s: reading panicked: %s\n%s", what, ps, mc.LastStack())
			}
			if got != any(want) {
				return c.Failf("designation", "%s: reading a proxy of %v gave %v (proxy: %v)", what, p.(ecore.EObjectInternal).EProxyURI(), got, got == any(p))
			}
			if raw := holder.EGetResolve(x, false); raw != any(want) {
				return c.Failf("designation", "%s: the reference holds %v after reading", what, raw)
			}
			return true
		}
		for _, roots := range []int{1, 2} {
			st := newMemStore()
			nn := func() ecore.EObject { return newObj(kind, m.c("N"), st) }
			set := ecore.NewEResourceSetImpl()
			main, tree := ecore.NewEResourceImpl(), ecore.NewEResourceImpl()
			main.SetURI(ecore.NewURI("mem:/main"))
			tree.SetURI(ecore.NewURI("mem:/tree"))
			set.GetResources().Add(main)
			set.GetResources().Add(tree)
			holder := nn()
			main.GetContents().Add(holder)
			var objs []ecore.EObject
			var grow func(o ecore.EObject, depth int)
			grow = func(o ecore.EObject, depth int) {
				objs = append(objs, o)
				if depth == 0 {
					return
				}
				for _, f := range []string{"k", "ks", "ks", "kb", "kbs"} {
					k := nn()
					if m.f("N." + f).IsMany() {
						o.EGet(m.f("N." + f)).(ecore.EList).Add(k)
					} else {
						o.ESet(m.f("N."+f), k)
					}
					grow(k, depth-1)
				}
			}
			for i := 0; i < roots; i++ {
				r := nn()
				tree.GetContents().Add(r)
				grow(r, 3)
			}
			uris := map[string]bool{}
			for _, o := range objs {
				u := ecore.GetURI(o)
				c.Res.States++
				if uris[u.String()] {
					c.Failf("designation", "two objects have the URI %v", u)
				}
				uris[u.String()] = true
				p := nn()
				p.(ecore.EObjectInternal).ESetProxyURI(u)
				if !read("tree", holder, p, o) {
					return
				}
			}
			// chains of proxies, each the root of a resource of its own
			for n := 1; n <= 4; n++ {
				for _, end := range []ecore.EObject{objs[0], objs[len(objs)-1]} {
					u := ecore.GetURI(end)
					var p ecore.EObject
					for i := 0; i <= n; i++ {
						p = nn()
						p.(ecore.EObjectInternal).ESetProxyURI(u)
						if i < n {
							r := ecore.NewEResourceImpl()
							u = ecore.NewURI(fmt.Sprintf("mem:/chain%d-%d-%p", n, i, end))
							r.SetURI(u)
							u = ecore.NewURI(u.String() + "#/")
							set.GetResources().Add(r)
							r.GetContents().Add(p)
						}
					}
					if !read(fmt.Sprintf("chain of %d", n), holder, p, end) {
						return
					}
				}
			}
		}
		// elements of a registered package, with and without a resource set
		pkg := ecore.GetPackage()
		var els []ecore.EObject
		for it := pkg.EAllContents(); it.HasNext(); {
			els = append(els, it.Next().(ecore.EObject))
		}
		for _, where := range []string{"no resource", "resource", "resource set"} {
			holder := newObj(kind, m.c("N"), newMemStore())
			r := ecore.NewEResourceImpl()
			r.SetURI(ecore.NewURI("mem:/main"))
			if where != "no resource" {
				r.GetContents().Add(holder)
			}
			if where == "resource set" {
				ecore.NewEResourceSetImpl().GetResources().Add(r)
			}
			for _, e := range els {
				p := newObj(kind, m.c("N"), newMemStore())
				p.(ecore.EObjectInternal).ESetProxyURI(ecore.GetURI(e))
				c.Res.States++
				if !read("registered package, "+where, holder, p, e) {
					return
				}
			}
		}
		// loaded on demand
		for _, ext := range []string{"xml", "ecore", "bin"} {
			for _, present := range []bool{true, false} {
				docs := newDocConverter()
				mkSet := func() ecore.EResourceSet {
					s := ecore.NewEResourceSetImpl()
					s.SetURIConverter(docs)
					s.GetPackageRegistry().RegisterPackage(m.pkg)
					return s
				}
				root := newObj(kDynamic, m.c("N"), nil)
				kid := newObj(kDynamic, m.c("N"), nil)
				root.ESet(m.f("N.k"), kid)
				kid.ESet(m.f("N.v"), 7)
				if present {
					r := mkSet().CreateResource(ecore.NewURI("mem:/doc." + ext))
					r.GetContents().Add(root)
					r.Save()
				}
				set := mkSet()
				main := set.CreateResource(ecore.NewURI("mem:/main"))
				holder := newObj(kind, m.c("N"), newMemStore())
				main.GetContents().Add(holder)
				p := newObj(kind, m.c("N"), newMemStore())
				p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("mem:/doc." + ext + "#//@k"))
				holder.ESet(x, p)
				var got any
				if ps := mc.Panics(func() { got = holder.EGet(x); got = holder.EGet(x) }); ps != "" {
					c.Failf("designation:demand", "loading on demand panicked: %s\n%s", ps, mc.LastStack())
					return
				}
				c.Res.Transitions++
				if present {
					if got == any(p) || isNil(got) || got.(ecore.EObject).EGet(got.(ecore.EObject).EClass().GetEStructuralFeatureFromName("v")) != any(7) {
						c.Failf("designation:demand", "a proxy to an object of a document that was not loaded gave %v (document read %d times)\n%s", got, docs.reads["mem:/doc."+ext], docs.docs["mem:/doc."+ext])
						return
					}
					if docs.reads["mem:/doc."+ext] != 1 {
						c.Failf("designation:demand", "the document was read %d times", docs.reads["mem:/doc."+ext])
						return
					}
				} else if got != any(p) {
					c.Failf("designation:demand", "a proxy to an object of a missing document gave %v", got)
					return
				}
			}
		}
		c.Res.Traces = c.Res.Transitions
	}}
}
