package main

import (
	"fmt"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

func init() {
	register(&mc.Check{ID: "C05", Level: "model_checking",
		Rule: "every history of adapter-list operations on every kind of notifier, with counting adapters whose target calls must equal the list's contents, and of notifications in between (with adapters that detach themselves or others while being told); " +
			"every history of content-tree, resource and resource-set changes, of attaching and detaching a content adapter at every possible root, breadth-first over the reference model's states: after every step the notifiers holding the content adapter are exactly the root and what the reference model has below it, and every notification of a notifier holding the content adapter was told to it exactly once",
		Assumptions: []string{"3 objects, 2 resources, one resource set", "one content adapter attached at one root at a time", "changes that would make an object contain itself are outside the property"},
		Items:       c05Items})
}

// ---------------------------------------------------------------------------
// adapter lists

type cntAdapter struct {
	ecore.AbstractEAdapter
	targets  int
	wrong    string
	told     int
	removing int
	n        ecore.ENotifier
	on       func()
	dup      bool
}

func (a *cntAdapter) SetTarget(n ecore.ENotifier) {
	a.AbstractEAdapter.SetTarget(n)
	if n == nil {
		return
	}
	if n != a.n {
		a.wrong = fmt.Sprintf("SetTarget called with %T", n)
	}
	a.targets++
}

func (a *cntAdapter) UnSetTarget(n ecore.ENotifier) {
	a.AbstractEAdapter.UnSetTarget(n)
	if n != a.n {
		a.wrong = fmt.Sprintf("UnSetTarget called with %T", n)
	}
	a.targets--
}

func (a *cntAdapter) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() == ecore.REMOVING_ADAPTER {
		a.removing++
		if n.GetOldValue() != any(a.interfacesOf()) {
			a.wrong = "REMOVING_ADAPTER does not carry the adapter"
		}
		return
	}
	a.told++
	if a.on != nil {
		a.on()
	}
}

func (a *cntAdapter) interfacesOf() any { return a }

func notifierWorld() (kinds []string, mk func(string) (ecore.ENotifier, func())) {
	m := newMM("http://adapters", []cspec{{name: "N", feats: []fspec{{name: "v", typ: "int"}}}})
	kinds = append(append([]string{}, allKinds...), "resource", "resourceset")
	return kinds, func(k string) (ecore.ENotifier, func()) {
		i := 0
		switch k {
		case "resource":
			r := ecore.NewEResourceImpl()
			return r, func() { i++; r.SetURI(ecore.NewURI(fmt.Sprintf("http://x/%d", i))) }
		case "resourceset":
			r := ecore.NewEResourceSetImpl()
			return r, func() { r.GetResources().Add(ecore.NewEResourceImpl()) }
		}
		o := newObj(k, m.c("N"), newMemStore())
		return o, func() { i++; o.ESet(m.f("N.v"), i) }
	}
}

func adapterListItem(kind string, mk func(string) (ecore.ENotifier, func())) mc.Item {
	return mc.Item{Name: "adapter-list/" + kind, Run: func(c *mc.Ctx) {
		colls := [][]int{{0, 1}, {1, 1}, {}}
		maxSize := 3
		ops := listAlphabet(2, maxSize, colls)
		names := make([]string, len(ops))
		for i, o := range ops {
			names[i] = o.name
		}
		mkSys := func() mc.Machine {
			n, change := mk(kind)
			s := &listSys{list: n.EAdapters(), ops: ops, max: maxSize}
			var as []*cntAdapter
			for i := 0; i < 2; i++ {
				a := &cntAdapter{n: n}
				as = append(as, a)
				s.elems = append(s.elems, a)
			}
			s.extra = func(model []int, check bool) string {
				for i, a := range as {
					cnt := 0
					for _, e := range model {
						if e == i {
							cnt++
						}
					}
					a.told = 0
					if a.wrong != "" {
						return a.wrong
					}
					if a.targets != cnt {
						return fmt.Sprintf("adapter %c was told of the notifier %d times (net) but the list holds it %d times: %s", 'a'+i, a.targets, cnt, s.show(model))
					}
					// with duplicates the base adapter keeps one target only
					if a.dup = a.dup || cnt > 1; !a.dup && (a.GetTarget() != nil) != (cnt == 1) {
						return fmt.Sprintf("target of adapter %c is %v, list is %s", 'a'+i, a.GetTarget(), s.show(model))
					}
				}
				change()
				for i, a := range as {
					cnt := 0
					for _, e := range model {
						if e == i {
							cnt++
						}
					}
					if a.told != cnt {
						return fmt.Sprintf("adapter %c received %d notifications of one change, the list holds it %d times", 'a'+i, a.told, cnt)
					}
				}
				if n.EAdapters() != s.list {
					return "EAdapters() gives another list"
				}
				return ""
			}
			return s
		}
		d := 3
		if c.Thorough() {
			d = 4
		}
		(&mc.Explore{Ops: names, New: mkSys, MaxDepth: d, Variety: 3, KeyPrefix: "adapters/" + kind + ":"}).Run(c)
		c.Res.Traces = c.Res.Transitions
	}}
}

// adapters that change the adapter list while being told: every other adapter
// that stays attached is told exactly once.
func selfDetachItem(kind string, mk func(string) (ecore.ENotifier, func())) mc.Item {
	return mc.Item{Name: "adapter-detach/" + kind, Run: func(c *mc.Ctx) {
		type act struct{ who, what, whom int } // adapter who does what(0 remove,1 add) with whom
		n := 3
		acts := []act{{-1, 0, 0}}
		for who := 0; who < n; who++ {
			for whom := 0; whom < n; whom++ {
				acts = append(acts, act{who, 0, whom})
			}
			acts = append(acts, act{who, 1, n})
		}
		for _, a1 := range acts {
			for _, a2 := range acts {
				if c.Expired() {
					return
				}
				desc := fmt.Sprintf("%v %v", a1, a2)
				c.Beat(func() string { return desc })
				nt, change := mk(kind)
				var as []*cntAdapter
				for i := 0; i < n+1; i++ {
					as = append(as, &cntAdapter{n: nt})
				}
				for i := 0; i < n; i++ {
					nt.EAdapters().Add(as[i])
				}
				touched := map[int]bool{n: true}
				for i := range as {
					i := i
					as[i].on = func() {
						for _, a := range []act{a1, a2} {
							if a.who != i {
								continue
							}
							if a.what == 0 {
								nt.EAdapters().Remove(as[a.whom])
							} else if !nt.EAdapters().Contains(as[a.whom]) {
								nt.EAdapters().Add(as[a.whom])
							}
						}
					}
				}
				for _, a := range []act{a1, a2} {
					if a.who >= 0 && a.what == 0 && a.who != a.whom {
						touched[a.whom] = true
					}
				}
				p := mc.Panics(change)
				c.Res.Transitions++
				c.Eval(desc)
				if p != "" {
					c.Failf("detach/"+kind+":panic", "adapters a,b,c on %s with actions (who,0=remove/1=add,whom) %s while being told of a change: panic %s at %s", kind, desc, p, mc.LastStack())
					continue
				}
				for i := 0; i < n; i++ {
					if !touched[i] && as[i].told != 1 {
						c.Failf("detach/"+kind, "adapters a,b,c on %s; while being told of a change, (adapter,0=remove/1=add,adapter) %s: adapter %c, attached throughout, was told %d times of one change", kind, desc, 'a'+i, as[i].told)
					}
				}
			}
		}
		c.Res.Traces = c.Res.Transitions
		c.Res.States = c.Res.Transitions
	}}
}

// ---------------------------------------------------------------------------
// content adapters

type gca struct {
	sub     bool // a subclass (SetInterfaces)
	resolve bool
	ca      ecore.EAdapter
	told    map[ecore.ENotifier]int
	seen    map[ecore.ENotifier]int
}

type subContentAdapter struct {
	*ecore.EContentAdapter
	g *gca
}

func (a *subContentAdapter) NotifyChanged(n ecore.ENotification) {
	a.EContentAdapter.NotifyChanged(n)
	if n.GetEventType() != ecore.REMOVING_ADAPTER {
		a.g.told[n.GetNotifier()]++
	}
}

// root codes: 0.. objects, 100+r resources, 200 the set
func (s *gsys) notifier(code int) ecore.ENotifier {
	switch {
	case code == 200:
		return s.set
	case code >= 100:
		return s.ress[code-100]
	}
	return s.objs[code]
}

func rootName(code int) string {
	switch {
	case code == 200:
		return "set"
	case code >= 100:
		return fmt.Sprintf("r%d", code-100)
	}
	return objName(code)
}

// covered gives the notifiers of the tree below the root.
func (w *gworld) covered(m *gstate) map[int]bool {
	r := map[int]bool{}
	var obj func(o int)
	obj = func(o int) {
		r[o] = true
		for _, f := range w.feats {
			if f.cont {
				for _, x := range m.slots[o][f.idx] {
					obj(x)
				}
			}
		}
	}
	res := func(k int) {
		r[100+k] = true
		for _, x := range m.contents[k] {
			obj(x)
		}
	}
	switch {
	case m.at < 0:
	case m.at == 200:
		r[200] = true
		for _, k := range m.inSet {
			res(k)
		}
	case m.at >= 100:
		res(m.at - 100)
	default:
		obj(m.at)
	}
	return r
}

func (s *gsys) initAdapter() {
	g := s.ca
	c := ecore.NewEContentAdapter()
	c.SetResolveProxies(g.resolve)
	g.told, g.seen = map[ecore.ENotifier]int{}, map[ecore.ENotifier]int{}
	if g.sub {
		sub := &subContentAdapter{c, g}
		c.SetInterfaces(sub)
		g.ca = sub
	} else {
		g.ca = c
	}
}

func (w *gworld) adapterOps(set bool, ops []gop) []gop {
	var roots []int
	for o := 0; o < w.n; o++ {
		roots = append(roots, o)
	}
	for r := 0; r < w.nres; r++ {
		roots = append(roots, 100+r)
	}
	if set {
		roots = append(roots, 200)
		for r := 0; r < w.nres; r++ {
			ops = append(ops, gop{name: fmt.Sprintf("set.add(r%d)", r), kind: "rs:add", o: r},
				gop{name: fmt.Sprintf("set.insert(0,r%d)", r), kind: "rs:insert", o: r},
				gop{name: fmt.Sprintf("set.remove(r%d)", r), kind: "rs:remove", o: r},
				gop{name: fmt.Sprintf("set.set(0,r%d)", r), kind: "rs:set", o: r})
		}
		ops = append(ops, gop{name: "set.clear()", kind: "rs:clear"}, gop{name: "set.move(0,1)", kind: "rs:move"})
		ops = append(ops, gop{name: "set.addall(r0,r1)", kind: "rs:addall"}, gop{name: "set.removeall(r0,r1)", kind: "rs:removeall"})
	}
	for _, r := range roots {
		ops = append(ops, gop{name: "attach at " + rootName(r), kind: "ca:attach", o: r})
	}
	ops = append(ops, gop{name: "detach", kind: "ca:detach"}, gop{name: "clear the root's adapters", kind: "ca:clear"})
	return ops
}

func (w *gworld) applyAdapterOp(s *gstate, op gop) (ok, enabled bool) {
	in := hasInt(s.inSet, op.o)
	switch op.kind {
	case "rs:add":
		if !in {
			s.inSet = append(s.inSet, op.o)
		}
	case "rs:insert":
		if !in {
			s.inSet = insInt(s.inSet, 0, op.o)
		}
	case "rs:remove":
		s.inSet = remInt(s.inSet, op.o)
	case "rs:set":
		if len(s.inSet) == 0 {
			return false, true
		}
		if in {
			return false, s.inSet[0] != op.o // setting the same element again is not specified
		}
		s.inSet[0] = op.o
	case "rs:clear", "rs:removeall":
		s.inSet = nil
	case "rs:addall":
		for r := 0; r < w.nres; r++ {
			if !hasInt(s.inSet, r) {
				s.inSet = append(s.inSet, r)
			}
		}
	case "rs:move":
		if len(s.inSet) < 2 {
			return false, true
		}
		s.inSet = []int{s.inSet[1], s.inSet[0]}
	case "ca:attach":
		if s.at >= 0 {
			return true, false
		}
		s.at = op.o
	case "ca:detach", "ca:clear":
		if s.at < 0 {
			return true, false
		}
		s.at = -1
	}
	return true, true
}

func (s *gsys) realAdapterOp(op gop, root int) {
	var l ecore.EList
	if s.set != nil {
		l = s.set.GetResources()
	}
	switch op.kind {
	case "rs:add":
		l.Add(s.ress[op.o])
	case "rs:insert":
		l.Insert(0, s.ress[op.o])
	case "rs:remove":
		l.Remove(s.ress[op.o])
	case "rs:set":
		l.Set(0, s.ress[op.o])
	case "rs:clear":
		l.Clear()
	case "rs:move":
		l.Move(0, 1)
	case "rs:addall", "rs:removeall":
		var d []any
		for _, r := range s.ress {
			d = append(d, r)
		}
		if op.kind == "rs:addall" {
			l.AddAll(ecore.NewBasicEList(d))
		} else {
			l.RemoveAll(ecore.NewBasicEList(d))
		}
	case "ca:attach":
		s.notifier(root).EAdapters().Add(s.ca.ca)
	case "ca:detach":
		s.notifier(root).EAdapters().Remove(s.ca.ca)
	case "ca:clear":
		n := s.notifier(root)
		n.EAdapters().Clear()
		s.addRecorder(root)
	}
}

func (s *gsys) addRecorder(code int) {
	n := s.notifier(code)
	switch {
	case code == 200:
		n.EAdapters().Add(&setRecorder{s: s})
	case code >= 100:
		n.EAdapters().Add(&recAdapter{s: s, o: code - 100, isRes: true})
	default:
		n.EAdapters().Add(&recAdapter{s: s, o: code})
	}
}

type setRecorder struct {
	ecore.AbstractEAdapter
	s *gsys
}

func (r *setRecorder) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() != ecore.REMOVING_ADAPTER {
		r.s.caSeen(n.GetNotifier())
	}
}

// caSeen counts a change of a notifier that holds the content adapter at that
// time: an object moved inside the tree leaves it for a moment.
func (s *gsys) caSeen(n ecore.ENotifier) {
	if n.EAdapters().Contains(s.ca.ca) {
		s.ca.seen[n]++
	}
}

func (s *gsys) diffAdapter(before *gstate) string {
	b, a := s.w.covered(before), s.w.covered(s.model)
	codes := []int{}
	for o := range s.objs {
		codes = append(codes, o)
	}
	for r := range s.ress {
		codes = append(codes, 100+r)
	}
	if s.set != nil {
		codes = append(codes, 200)
	}
	for _, k := range codes {
		n := s.notifier(k)
		cnt := 0
		for x := range n.EAdapters().All() {
			if x == any(s.ca.ca) {
				cnt++
			}
		}
		want := 0
		if a[k] {
			want = 1
		}
		if cnt != want {
			return fmt.Sprintf("%s holds the content adapter %d times instead of %d (attached at %s)", rootName(k), cnt, want, rootName(s.model.at))
		}
		if s.ca.sub && b[k] && a[k] && s.ca.told[n] != s.ca.seen[n] {
			return fmt.Sprintf("%d changes of %s were notified, the content adapter was told of %d", s.ca.seen[n], rootName(k), s.ca.told[n])
		}
	}
	return ""
}

func contentAdapterScenarios() []gscenario {
	three := threeN()
	return []gscenario{
		{name: "ca-kids", classes: nClass(fKids, fParent), objs: three, feats: []string{"N.kids", "N.parent"}, depth: 4, deep: 6, pairs: true},
		{name: "ca-child", classes: nClass(fChild, fOwner, fBox), objs: three, feats: []string{"N.child", "N.owner", "N.box"}, depth: 4, deep: 6},
		{name: "ca-boxes", classes: nClass(fBoxes), objs: three, feats: []string{"N.boxes"}, depth: 4, deep: 5, pairs: true},
		{name: "ca-resource", classes: nClass(fKids, fParent, fBox), objs: three, nres: 1, feats: []string{"N.kids", "N.parent", "N.box"}, depth: 3, deep: 4, pairs: true},
		{name: "ca-resource-noresolve", classes: nClass(fKidsL, fParentL, fBoxL), objs: three, nres: 1, feats: []string{"N.kids", "N.parent", "N.box"}, depth: 3, deep: 4},
		{name: "ca-set", classes: nClass(fBox, fBoxes), objs: three, nres: 2, feats: []string{"N.box", "N.boxes"}, depth: 3, deep: 4, rset: true},
		{name: "ca-set-noresolve", classes: nClass(fChildL, fOwnerL), objs: three, nres: 2, feats: []string{"N.child", "N.owner"}, depth: 4, deep: 5, rset: true},
		{name: "ca-kinds", classes: nClass(fKids, fParent, fBox), objs: three, nres: 1, feats: []string{"N.kids", "N.parent", "N.box"}, depth: 3, deep: 4, kinds: []string{kDynamic, kCompactC, kStoreMem}},
	}
}

func c05Items(tier string) []mc.Item {
	kinds, mk := notifierWorld()
	var items []mc.Item
	for _, k := range kinds {
		items = append(items, adapterListItem(k, mk), selfDetachItem(k, mk))
	}
	for _, sc := range contentAdapterScenarios() {
		for _, v := range []gca{{}, {sub: true}, {resolve: true, sub: true}} {
			sc := sc
			v := v
			sc.ca = &v
			sc.name += fmt.Sprintf("-sub=%v-resolve=%v", v.sub, v.resolve)
			if sc.kinds != nil {
				items = append(items, sc.item("content", sc.kinds, true))
				continue
			}
			ks := []string{kDynamic, kCompactC, kStoreMem}
			if tier == "thorough" {
				ks = allKinds
			}
			for _, k := range ks {
				items = append(items, sc.item("content", []string{k}, true))
			}
		}
	}
	return items
}
