package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C16: traversals against plain data.

func init() {
	register(&mc.Check{ID: "C16", Level: "model_checking",
		Rule:        "contents/: every model of each family (all trees, all assignments of cross references of each kind, maps, proxies, within the bound) for each object implementation: the contents, cross references, their unresolved views and all contents of every object and of a resource are read in every way the list and iterator interfaces offer (indexes, lookups, range, iterator with and without asking for the next element first) and compared with the plain description, then again after each single feature has been emptied. class/: every containment metamodel of up to three classes with ordered references, every content tree over it: contents by class, from every object and for every class.",
		Assumptions: []string{"contents by class come in an order of their own: each object once, parents before children, in list order within a reference"},
		Items:       c16Items})
}

// readAll reads a list in every way and returns what disagrees with want.
func readAll(l ecore.EList, want []any, universe []any) string {
	show := func(x []any) string { return fmt.Sprintf("%d elements", len(x)) }
	same := func(how string, got []any) string {
		if len(got) != len(want) {
			return fmt.Sprintf("%s gives %s, expected %s", how, show(got), show(want))
		}
		for i := range got {
			if got[i] != want[i] {
				return fmt.Sprintf("%s: element %d is another one", how, i)
			}
		}
		return ""
	}
	if s := same("ToArray", l.ToArray()); s != "" {
		return s
	}
	if n := l.Size(); n != len(want) {
		return fmt.Sprintf("Size is %d, expected %d", n, len(want))
	}
	if l.Empty() != (len(want) == 0) {
		return fmt.Sprintf("Empty is %v with %d elements", l.Empty(), len(want))
	}
	var got []any
	for v := range l.All() {
		got = append(got, v)
	}
	if s := same("All", got); s != "" {
		return s
	}
	for stop := range want {
		n := 0
		for range l.All() {
			if n++; n > stop {
				break
			}
		}
		if n != stop+1 {
			return "a range that is left early goes on"
		}
	}
	for mode := 0; mode < 3; mode++ {
		if s := same(fmt.Sprintf("Iterator (mode %d)", mode), drain(l.Iterator(), mode, len(want))); s != "" {
			return s
		}
	}
	for i, x := range want {
		if v := l.Get(i); v != x {
			return fmt.Sprintf("Get(%d) is another element", i)
		}
	}
	if p := mc.Panics(func() { l.Get(len(want)) }); p == "" {
		return "Get(Size()) gives something"
	}
	for k, x := range append([]any{nil}, universe...) {
		idx := -1
		for i, y := range want {
			if x == y {
				idx = i
				break
			}
		}
		if l.IndexOf(x) != idx || l.Contains(x) != (idx >= 0) {
			return fmt.Sprintf("IndexOf and Contains of object %d are %d and %v, expected index %d", k-1, l.IndexOf(x), l.Contains(x), idx)
		}
	}
	return ""
}

// drain reads an iterator: asking once before each element, several times, or
// not at all for the known number of elements.
func drain(it ecore.EIterator, mode, n int) []any {
	var got []any
	switch mode {
	case 0:
		for it.HasNext() {
			got = append(got, it.Next())
			if len(got) > n+8 {
				return got
			}
		}
	case 1:
		for it.HasNext() && it.HasNext() && it.HasNext() {
			got = append(got, it.Next())
			if len(got) > n+8 {
				return got
			}
		}
		if it.HasNext() {
			got = append(got, "more")
		}
	case 2:
		for i := 0; i < n; i++ {
			got = append(got, it.Next())
		}
		if it.HasNext() {
			got = append(got, "more")
		}
	}
	return got
}

// c16State compares all traversals of a built model with its description;
// proxies are objects of their own (negative numbers).
func c16State(s *mspec, objs []ecore.EObject, proxy map[int]ecore.EObject, res ecore.EResource) string {
	var universe []any
	for _, o := range objs {
		universe = append(universe, o)
	}
	obj := func(n int) any {
		if n < 0 {
			return proxy[n]
		}
		return objs[n]
	}
	direct := func(n int, cont bool) []any {
		r := []any{}
		for it := s.m.classes[s.nodes[n].class].GetEAllReferences().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EReference)
			if f.IsContainment() != cont || f.IsContainer() {
				continue
			}
			for _, x := range s.nodes[n].refs[f.GetName()] {
				r = append(r, obj(x))
			}
		}
		return r
	}
	var all func(n int) []any
	all = func(n int) []any {
		order, _ := s.order([]int{n}, textOpts{transient: true})
		r := []any{}
		for _, x := range order[1:] {
			r = append(r, objs[x])
		}
		return r
	}
	for i, o := range objs {
		for _, k := range []struct {
			name string
			l    ecore.EList
			want []any
		}{
			{"EContents", o.EContents(), direct(i, true)},
			{"ECrossReferences", o.ECrossReferences(), direct(i, false)},
			{"unresolved EContents", o.EContents().(ecore.EObjectList).GetUnResolvedList(), direct(i, true)},
			{"unresolved ECrossReferences", o.ECrossReferences().(ecore.EObjectList).GetUnResolvedList(), direct(i, false)},
		} {
			if d := readAll(k.l, k.want, universe); d != "" {
				return fmt.Sprintf("%s of n%d: %s", k.name, i, d)
			}
		}
		want := all(i)
		for mode := 0; mode < 3; mode++ {
			got := drain(o.EAllContents(), mode, len(want))
			if fmt.Sprint(len(got)) != fmt.Sprint(len(want)) {
				return fmt.Sprintf("EAllContents of n%d (mode %d) gives %d objects, expected %d", i, mode, len(got), len(want))
			}
			for k := range got {
				if got[k] != want[k] {
					return fmt.Sprintf("EAllContents of n%d (mode %d): object %d is another one", i, mode, k)
				}
			}
		}
	}
	if res != nil {
		var want []any
		for _, r := range modelRoots(s) {
			want = append(want, objs[r])
			want = append(want, all(r)...)
		}
		for mode := 0; mode < 3; mode++ {
			got := drain(res.GetAllContents(), mode, len(want))
			if len(got) != len(want) {
				return fmt.Sprintf("GetAllContents (mode %d) gives %d objects, expected %d", mode, len(got), len(want))
			}
			for k := range got {
				if got[k] != want[k] {
					return fmt.Sprintf("GetAllContents (mode %d): object %d is another one", mode, k)
				}
			}
		}
	}
	return ""
}

// clearFeature empties a feature of a description.
func clearFeature(s *mspec, n int, name string) *mspec {
	r := &mspec{m: s.m}
	for _, o := range s.nodes {
		c := &mnode{class: o.class, attrs: o.attrs, refs: map[string][]int{}}
		for k, l := range o.refs {
			c.refs[k] = append([]int{}, l...)
		}
		r.nodes = append(r.nodes, c)
	}
	f := s.fspecOf(n, name)
	for _, x := range r.nodes[n].refs[name] {
		if o := f.GetEOpposite(); o != nil && x >= 0 {
			var l []int
			for _, y := range r.nodes[x].refs[o.GetName()] {
				if y != n {
					l = append(l, y)
				}
			}
			r.nodes[x].refs[o.GetName()] = l
		}
	}
	r.nodes[n].refs[name] = nil
	return r
}

func c16Model(s *mspec, kind string, steps *int64) string {
	mk := func(class string) ecore.EObject {
		cl := s.m.classes[class]
		if ecore.IsMapEntry(cl) || kind == kDynamic {
			return cl.GetEPackage().GetEFactoryInstance().Create(cl)
		}
		return newObj(kind, cl, nil)
	}
	type act struct {
		n int
		f string
	}
	acts := []act{{-1, ""}}
	for i, n := range s.nodes {
		for _, name := range sortedKeys(n.refs) {
			if len(n.refs[name]) > 0 {
				acts = append(acts, act{i, name})
			}
		}
	}
	for _, a := range acts {
		*steps++
		objs := s.build(mk)
		proxy := map[int]ecore.EObject{}
		for i, n := range s.nodes {
			for name, l := range n.refs {
				for k, x := range l {
					if x < 0 {
						v := objs[i].EGetResolve(s.fspecOf(i, name), false)
						if ol, ok := v.(ecore.EObjectList); ok {
							v = ol.GetUnResolvedList().Get(k)
						}
						proxy[x] = v.(ecore.EObject)
					}
				}
			}
		}
		res := ecore.NewEResourceImpl()
		for _, r := range modelRoots(s) {
			res.GetContents().Add(objs[r])
		}
		if d := c16State(s, objs, proxy, res); d != "" {
			return d
		}
		if a.n < 0 {
			continue
		}
		f := s.fspecOf(a.n, a.f)
		if f.IsMany() {
			objs[a.n].EGet(f).(ecore.EList).Clear()
		} else {
			objs[a.n].ESet(f, nil)
		}
		if d := c16State(clearFeature(s, a.n, a.f), objs, proxy, nil); d != "" {
			return fmt.Sprintf("after n%d.%s has been emptied: %s", a.n, a.f, d)
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// contents by class

type clRef struct {
	from, to int
	many     bool
}

type clTree struct {
	parent, ref, class []int
}

func c16Class(c *mc.Ctx, m *mm, refs []clRef, names []string, n int, maxKids int, poly [][2]int) bool {
	sub := func(a, b int) bool { // class a is b or below it
		if a == b {
			return true
		}
		for _, p := range poly {
			if p[0] == a && p[1] == b {
				return true
			}
		}
		return false
	}
	ok := true
	enumerate(func(ch *chooser) bool {
		t := clTree{parent: []int{-1}, ref: []int{-1}, class: []int{ch.pick(n)}}
		used := map[[2]int]bool{}
		for k, cnt := 0, ch.pick(maxKids+1); k < cnt; k++ {
			p := ch.pick(len(t.class))
			var can []int
			for i, r := range refs {
				if sub(t.class[p], r.from) && (r.many || !used[[2]int{p, i}]) {
					can = append(can, i)
				}
			}
			if len(can) == 0 {
				return true
			}
			r := can[ch.pick(len(can))]
			var cls []int
			for x := 0; x < n; x++ {
				if sub(x, refs[r].to) {
					cls = append(cls, x)
				}
			}
			used[[2]int{p, r}] = true
			t.parent = append(t.parent, p)
			t.ref = append(t.ref, r)
			t.class = append(t.class, cls[ch.pick(len(cls))])
		}
		c.Res.States++
		fac := m.pkg.GetEFactoryInstance()
		var objs []ecore.EObject
		desc := func() string {
			var b strings.Builder
			for i, r := range refs {
				fmt.Fprintf(&b, "ref%d: %s->%s many=%v; ", i, names[r.from], names[r.to], r.many)
			}
			for i := range t.class {
				fmt.Fprintf(&b, "o%d=%s in o%d.ref%d; ", i, names[t.class[i]], t.parent[i], t.ref[i])
			}
			return b.String()
		}
		c.Beat(desc)
		for i, cl := range t.class {
			o := fac.Create(m.c(names[cl]))
			objs = append(objs, o)
			if i > 0 {
				f := m.f(fmt.Sprintf("%s.ref%d", names[refs[t.ref[i]].from], t.ref[i]))
				if f.IsMany() {
					objs[t.parent[i]].EGet(f).(ecore.EList).Add(o)
				} else {
					objs[t.parent[i]].ESet(f, o)
				}
			}
		}
		for from := range objs {
			for end := 0; end < n; end++ {
				want := map[int]bool{}
				for i := range objs {
					if !sub(t.class[i], end) {
						continue
					}
					for p := t.parent[i]; p >= 0; p = t.parent[p] {
						if p == from {
							want[i] = true
						}
					}
				}
				c.Res.Transitions++
				bad := ""
				var got []int
				p := mc.Panics(func() {
					it := ecore.EAllContentsWithClass(objs[from], m.c(names[end]))
					if len(objs)%2 == 0 {
						it = ecore.EAllContentsWithTable(objs[from], ecore.NewEClassTransitionsTable(objs[from].EClass(), m.c(names[end])))
					}
					for it.HasNext() {
						x := it.Next()
						k := -1
						for i, o := range objs {
							if o == x {
								k = i
							}
						}
						got = append(got, k)
						if len(got) > len(objs)+2 {
							return
						}
					}
				})
				seen := map[int]int{}
				for i, k := range got {
					if _, ok := seen[k]; ok {
						bad = fmt.Sprintf("o%d comes twice", k)
					}
					seen[k] = i
					if !want[k] {
						bad = fmt.Sprintf("o%d should not come", k)
					}
				}
				lost := "" // objects on a path through a reference to a super class
				for k := range want {
					if _, ok := seen[k]; !ok {
						direct := true
						for p := k; p != from; p = t.parent[p] {
							direct = direct && t.class[p] == refs[t.ref[p]].to
						}
						if msg := fmt.Sprintf("o%d does not come", k); direct {
							bad = msg
						} else {
							lost = msg
						}
					}
				}
				if bad == "" {
					for i := range got {
						for j := i + 1; j < len(got); j++ {
							for q := t.parent[got[i]]; q >= 0; q = t.parent[q] {
								if q == got[j] {
									bad = fmt.Sprintf("o%d comes before its container o%d", got[i], got[j])
								}
							}
							if a, b := got[i], got[j]; t.parent[a] == t.parent[b] && t.ref[a] == t.ref[b] && a > b {
								bad = fmt.Sprintf("o%d and o%d of the same list come in the wrong order", a, b)
							}
						}
					}
				}
				if p != "" {
					bad = p
				}
				c.Eval(fmt.Sprint(got))
				if lost != "" && !c.Failf("class-subclass", "%s: contents of o%d by class %s are %v: %s", desc(), from, names[end], got, lost) {
					ok = false
					return false
				}
				if bad != "" && !c.Failf("class", "%s: contents of o%d by class %s are %v: %s", desc(), from, names[end], got, bad) {
					ok = false
					return false
				}
			}
		}
		return true
	})
	return ok
}

func c16Items(tier string) []mc.Item {
	thorough := tier == "thorough"
	m := modelMM("http://models")
	var items []mc.Item
	for _, fam := range modelFamilies() {
		if strings.HasPrefix(fam.name, "refs2/") && !thorough || strings.HasPrefix(fam.name, "attr/") && fam.name != "attr/transient" {
			continue
		}
		for _, kind := range []string{kDynamic, kReflect, kBasic, kCompact, kCompactC, kStore, kStoreC} {
			d := 2
			if strings.HasPrefix(fam.name, "tree/") && kind != kDynamic {
				d = 1
			}
			if kind == kDynamic && strings.HasPrefix(fam.name, "map/") {
				d = 3
			}
			if thorough {
				d++
			}
			items = append(items, mc.Item{Name: "contents/" + fam.name + "/" + kind, Run: func(c *mc.Ctx) {
				seen := map[string]bool{}
				enumerate(func(ch *chooser) bool {
					if c.Expired() {
						return false
					}
					s := newSpec(m)
					fam.gen(s, ch, d)
					k := s.text(modelRoots(s), textOpts{transient: true})
					if seen[k] {
						return true
					}
					seen[k] = true
					c.Res.States++
					c.Beat(s.String)
					c.Sample(s.String())
					c.Eval(k)
					msg := ""
					if p := mc.Panics(func() { msg = c16Model(s, kind, &c.Res.Transitions) }); p != "" {
						msg = p
					}
					return msg == "" || c.Failf("contents:"+fam.name, "%s: %s", s, msg)
				})
			}})
		}
	}
	// contents by class
	names := []string{"A", "B", "C"}
	classItem := func(name string, n, maxRefs, maxKids int, first []clRef, poly [][2]int) {
		items = append(items, mc.Item{Name: name, Run: func(c *mc.Ctx) {
			seen := map[string]bool{}
			enumerate(func(ch *chooser) bool {
				if c.Expired() {
					return false
				}
				refs := append([]clRef{}, first...)
				for k, cnt := 0, ch.pick(maxRefs+1); k < cnt; k++ {
					r := clRef{from: ch.pick(n), to: ch.pick(n)}
					r.many = (r.from+r.to+len(refs))%2 == 0
					refs = append(refs, r)
				}
				// the order matters within a class only
				sorted := append([]clRef{}, refs...)
				sort.SliceStable(sorted, func(i, j int) bool { return sorted[i].from < sorted[j].from })
				k := ""
				for _, r := range sorted {
					k += fmt.Sprintf("%d%d ", r.from, r.to)
				}
				if seen[k] {
					return true
				}
				seen[k] = true
				cs := []cspec{}
				for i := 0; i < n; i++ {
					cl := cspec{name: names[i]}
					for _, p := range poly {
						if p[0] == i {
							cl.supers = append(cl.supers, names[p[1]])
						}
					}
					for j, r := range refs {
						if r.from == i {
							cl.feats = append(cl.feats, fspec{name: fmt.Sprintf("ref%d", j), typ: names[r.to], ref: true, cont: true, many: r.many})
						}
					}
					cs = append(cs, cl)
				}
				return c16Class(c, newMM("http://classes", cs), refs, names, n, maxKids, poly)
			})
		}})
	}
	kids, refs := 3, 3
	if thorough {
		kids = 4
	}
	for from := 0; from < 3; from++ {
		for to := 0; to < 3; to++ {
			classItem(fmt.Sprintf("class/first-%s%s", names[from], names[to]), 3, refs, kids, []clRef{{from, to, true}}, nil)
		}
	}
	classItem("class/two", 2, 4, kids, nil, nil)
	classItem("class/subclass", 3, 2, kids, nil, [][2]int{{1, 0}})
	return items
}
