package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C09: fragments.

func init() {
	register(&mc.Check{ID: "C09", Level: "model_checking",
		Rule:        "every content tree of up to four objects that a history of adding, inserting, moving, replacing and removing (and of giving identifiers) reaches, for every object implementation and every way of identifying objects (none, identifier attribute, each identifier manager, both): the fragment of every object looked up again, alone, through its URI and through the resource set, and objects outside the resource. Every string of up to a bounded number of fragment tokens against an independent reading of fragments. Every package made of up to three classifiers or annotations with names out of a set of awkward names.",
		Assumptions: []string{"an identifier does not start with '/' nor end with '?' (reserved for paths and queries)", "identifier attributes are unique in a resource and differ from the identifiers made by a manager", "feature names hold no '/'"},
		Items:       c09Items})
}

type fragOp struct {
	name string
	run  func(s *fragSys) bool // false: not enabled
}

type fragSys struct {
	m       *mm
	mode    string
	objs    []ecore.EObject
	res     *ecore.EResourceImpl
	set     ecore.EResourceSet
	ops     []fragOp
	attrIDs bool
	seen    map[string]bool
}

func (s *fragSys) f(n string) ecore.EStructuralFeature { return s.m.f("N." + n) }

func (s *fragSys) inTree(o ecore.EObject) bool {
	for o != nil {
		if s.res.GetContents().Contains(o) {
			return true
		}
		o = o.EContainer()
	}
	return false
}

func (s *fragSys) isAnc(a, x ecore.EObject) bool {
	for ; x != nil; x = x.EContainer() {
		if x == a {
			return true
		}
	}
	return false
}

func (s *fragSys) id(o ecore.EObject) string {
	if v, _ := o.EGet(s.f("id")).(string); o.EIsSet(s.f("id")) {
		return v
	}
	return ""
}

func (s *fragSys) Enabled(i int) bool { return true }

func (s *fragSys) Key() string {
	var b strings.Builder
	idx := func(o any) string {
		for i, x := range s.objs {
			if any(x) == o {
				return strconv.Itoa(i)
			}
		}
		return "-"
	}
	for v := range s.res.GetContents().All() {
		b.WriteString(idx(v))
	}
	for i, o := range s.objs {
		fmt.Fprintf(&b, "|%d:%s:", i, s.id(o))
		for _, f := range []string{"k", "k1"} {
			b.WriteString(idx(o.EGet(s.f(f))))
		}
		b.WriteString(":")
		for v := range o.EGet(s.f("ks")).(ecore.EList).All() {
			b.WriteString(idx(v))
		}
		if m := s.res.GetObjectIDManager(); m != nil {
			b.WriteString(fmt.Sprint(m.GetID(o) != nil, m.GetDetachedID(o) != nil))
			if s.mode == "attribute-manager" {
				b.WriteString(fmt.Sprint(m.GetID(o)))
			}
		}
	}
	return b.String()
}

func (s *fragSys) Step(i int, check bool) *mc.Viol {
	op := s.ops[i]
	bad := func(f string, a ...any) *mc.Viol {
		return mkViol("fragment:"+s.mode, "after %s: %s\n  state %s", op.name, fmt.Sprintf(f, a...), s.Key())
	}
	if p := mc.Panics(func() { op.run(s) }); p != "" {
		return bad("panicked: %s\n%s", p, mc.LastStack())
	}
	if !check {
		return nil
	}
	used := map[string]int{}
	name := func(o ecore.EObject) string {
		for i, x := range s.objs {
			if x == o {
				return strconv.Itoa(i)
			}
		}
		if o == nil {
			return "nothing"
		}
		return "unknown"
	}
	var v *mc.Viol
	p := mc.Panics(func() {
		for i, o := range s.objs {
			frag := s.res.GetURIFragment(o)
			if !s.inTree(o) {
				if s.id(o) == "" && frag != "/-1" {
					v = bad("object %d is not in the resource but has the fragment %q", i, frag)
					return
				}
				if got := s.res.GetEObject(frag); got != nil && !(s.mode == "attribute-manager" && s.inTree(got)) {
					v = bad("object %d is not in the resource, its fragment %q gives object %s", i, frag, name(got))
					return
				}
				// a root of its own: found by its path from there
				root := o
				for root.EContainer() != nil {
					root = root.EContainer()
				}
				if u := ecore.GetURI(o); s.id(o) == "" {
					path, ok := strings.CutPrefix(u.Fragment(), "//")
					if !ok {
						v = bad("object %d outside of any resource has URI %v", i, u)
						return
					}
					if got := ecore.GetEObject(root, path); got != o {
						v = bad("object %d outside of any resource: its path %q from its root gives object %s", i, path, name(got))
						return
					}
				}
				continue
			}
			if p, ok := used[frag]; ok {
				v = bad("objects %d and %d have the fragment %q", p, i, frag)
				return
			}
			used[frag] = i
			if got := s.res.GetEObject(frag); got != o {
				v = bad("the fragment %q of object %d gives object %s", frag, i, name(got))
				return
			}
			u := ecore.GetURI(o)
			if u.Fragment() != frag {
				v = bad("the URI of object %d is %v, its fragment is %q", i, u, frag)
				return
			}
			if got := s.set.GetEObject(u, false); got != o {
				v = bad("the URI %v of object %d gives object %s", u, i, name(got))
				return
			}
		}
		// fragments of earlier states: nothing, or an object of the tree that
		// a path still designates
		for frag := range s.seen {
			got := s.res.GetEObject(frag)
			if got != nil && !s.inTree(got) {
				v = bad("the earlier fragment %q gives object %s, which is not in the resource", frag, name(got))
				return
			}
			if _, ok := used[frag]; !ok && got != nil && !strings.HasPrefix(frag, "/") && s.mode != "attribute-manager" && !(s.mode == "both") {
				v = bad("the earlier fragment %q gives object %s, whose fragment is %q", frag, name(got), s.res.GetURIFragment(got))
				return
			}
		}
		for frag := range used {
			s.seen[frag] = true
		}
	})
	if p != "" {
		return bad("a lookup panicked: %s\n%s", p, mc.LastStack())
	}
	return v
}

func fragMM() *mm {
	return newMM("http://frag", []cspec{{name: "N", feats: []fspec{
		{name: "id", typ: "string", isID: true, unsettable: true},
		{name: "k", typ: "N", ref: true, cont: true},
		{name: "k1", typ: "N", ref: true, cont: true},
		{name: "ks", typ: "N", ref: true, cont: true, many: true},
		{name: "vs", typ: "string", many: true},
		{name: "x", typ: "N", ref: true},
	}}})
}

func newFragSys(m *mm, kind, mode string, n int) *fragSys {
	s := &fragSys{m: m, mode: mode, seen: map[string]bool{}}
	st := newMemStore()
	s.set = ecore.NewEResourceSetImpl()
	s.res = ecore.NewEResourceImpl()
	s.res.SetURI(ecore.NewURI("mem:/r"))
	s.set.GetResources().Add(s.res)
	switch mode {
	case "attribute-manager":
		s.res.SetObjectIDManager(ecore.NewEObjectIDManagerImpl())
	case "incremental":
		s.res.SetObjectIDManager(ecore.NewIncrementalIDManager())
	case "uuid", "both":
		s.res.SetObjectIDManager(ecore.NewUUIDManager())
	case "ulid":
		s.res.SetObjectIDManager(ecore.NewULIDManager())
	}
	for i := 0; i < n; i++ {
		s.objs = append(s.objs, newObj(kind, m.c("N"), st))
	}
	add := func(name string, f func(s *fragSys) bool) { s.ops = append(s.ops, fragOp{name, f}) }
	ok := func(s *fragSys, o, x int) bool { return !s.isAnc(s.objs[x], s.objs[o]) }
	for x := 0; x < n; x++ {
		add(fmt.Sprintf("contents.Add(%d)", x), func(s *fragSys) bool { return s.res.GetContents().Add(s.objs[x]) })
		add(fmt.Sprintf("contents.Insert(0,%d)", x), func(s *fragSys) bool {
			if s.res.GetContents().Contains(s.objs[x]) {
				return false
			}
			return s.res.GetContents().Insert(0, s.objs[x])
		})
		add(fmt.Sprintf("contents.Remove(%d)", x), func(s *fragSys) bool { return s.res.GetContents().Remove(s.objs[x]) })
		for o := 0; o < n; o++ {
			if o == x {
				continue
			}
			for _, f := range []string{"k", "k1"} {
				add(fmt.Sprintf("%d.%s=%d", o, f, x), func(s *fragSys) bool {
					if !ok(s, o, x) {
						return false
					}
					s.objs[o].ESet(s.f(f), s.objs[x])
					return true
				})
			}
			add(fmt.Sprintf("%d.ks.Add(%d)", o, x), func(s *fragSys) bool {
				return ok(s, o, x) && s.objs[o].EGet(s.f("ks")).(ecore.EList).Add(s.objs[x])
			})
			add(fmt.Sprintf("%d.ks.Insert(0,%d)", o, x), func(s *fragSys) bool {
				l := s.objs[o].EGet(s.f("ks")).(ecore.EList)
				return ok(s, o, x) && !l.Contains(s.objs[x]) && l.Insert(0, s.objs[x])
			})
		}
		add(fmt.Sprintf("%d.k=nil", x), func(s *fragSys) bool { s.objs[x].ESet(s.f("k"), nil); return true })
		add(fmt.Sprintf("%d.ks.RemoveAt(0)", x), func(s *fragSys) bool {
			l := s.objs[x].EGet(s.f("ks")).(ecore.EList)
			if l.Size() > 0 {
				l.RemoveAt(0)
			}
			return true
		})
		add(fmt.Sprintf("%d.ks.Clear()", x), func(s *fragSys) bool { s.objs[x].EGet(s.f("ks")).(ecore.EList).Clear(); return true })
		add(fmt.Sprintf("%d.ks.Move(1,0)", x), func(s *fragSys) bool {
			l := s.objs[x].EGet(s.f("ks")).(ecore.EList)
			if l.Size() > 1 {
				l.Move(1, 0)
			}
			return true
		})
		if mode == "attribute" || mode == "attribute-manager" || mode == "both" {
			for _, id := range []string{"", "p", "@k", "a b#"} {
				add(fmt.Sprintf("%d.id=%q", x, id), func(s *fragSys) bool {
					for _, y := range s.objs {
						if id != "" && s.id(y) == id {
							return false
						}
					}
					if mode == "attribute-manager" {
						// the manager is told
						if s.inTree(s.objs[x]) {
							s.res.GetObjectIDManager().SetID(s.objs[x], id)
							return true
						}
					}
					ecore.SetEObjectID(s.objs[x], id)
					return true
				})
			}
		}
	}
	return s
}

// ---- every string of fragment tokens

// fragOracle reads a fragment: the object it designates, and whether the
// reading is the plain one (a lenient one may also give nothing).
func fragOracle(res *ecore.EResourceImpl, m *mm, frag string, ids map[string]ecore.EObject) (obj ecore.EObject, plain bool) {
	num := func(t string) (int, bool, bool) {
		n, err := strconv.Atoi(t)
		if err != nil {
			return 0, false, false
		}
		return n, strconv.Itoa(n) == t, true
	}
	if !strings.HasPrefix(frag, "/") {
		if strings.HasSuffix(frag, "?") {
			return nil, false
		}
		return ids[frag], true
	}
	plain = true
	segs := strings.Split(frag, "/")[1:]
	pos := 0
	var o ecore.EObject
	if strings.HasPrefix(segs[0], "?") {
		o, plain = ids[segs[0][1:]], false
		if o == nil {
			return nil, true
		}
	} else {
		if segs[0] != "" {
			n, p, ok := num(segs[0])
			if !ok {
				return nil, true
			}
			pos, plain = n, plain && p
		} else if res.GetContents().Size() > 1 {
			plain = false
		}
		if pos < 0 || pos >= res.GetContents().Size() {
			return nil, true
		}
		o = res.GetContents().Get(pos).(ecore.EObject)
	}
	for _, s := range segs[1:] {
		name, ok := strings.CutPrefix(s, "@")
		if !ok {
			return nil, true
		}
		idx := -1
		if i := strings.LastIndexByte(name, '.'); i >= 0 {
			n, p, ok := num(name[i+1:])
			if !ok || n < 0 {
				return nil, true
			}
			name, idx, plain = name[:i], n, plain && p
		}
		f := m.feats["N."+name]
		if f == nil {
			return nil, true
		}
		if f.IsMany() != (idx >= 0) {
			return nil, true
		}
		if f.IsMany() {
			l := o.EGet(f).(ecore.EList)
			if idx >= l.Size() {
				return nil, true
			}
			k, isObj := l.Get(idx).(ecore.EObject)
			if !isObj {
				return nil, true
			}
			o = k
		} else {
			k, isObj := o.EGet(f).(ecore.EObject)
			if !isObj {
				return nil, true
			}
			o = k
		}
		if f == m.f("N.x") {
			plain = false // not a containment path
		}
	}
	return o, plain
}

func fragStringsItem(kind, mode string, roots int) mc.Item {
	return mc.Item{Name: fmt.Sprintf("strings/%s/%s/%d-roots", kind, mode, roots), Run: func(c *mc.Ctx) {
		m := fragMM()
		s := newFragSys(m, kind, mode, 6)
		for i := 0; i < roots; i++ {
			s.res.GetContents().Add(s.objs[i])
		}
		o := s.objs
		o[0].ESet(s.f("k"), o[2])
		o[0].EGet(s.f("ks")).(ecore.EList).Add(o[3])
		o[0].EGet(s.f("ks")).(ecore.EList).Add(o[4])
		o[3].EGet(s.f("ks")).(ecore.EList).Add(o[5])
		o[0].EGet(s.f("vs")).(ecore.EList).Add("v")
		o[0].ESet(s.f("x"), o[4])
		ids := map[string]ecore.EObject{}
		if mode == "attribute" {
			ecore.SetEObjectID(o[4], "k")
			ecore.SetEObjectID(o[5], "0")
			if roots > 0 {
				ids["k"], ids["0"] = o[4], o[5]
			}
		}
		if mode == "incremental" {
			for _, x := range o {
				if s.inTree(x) {
					ids[fmt.Sprint(s.res.GetObjectIDManager().GetID(x))] = x
				}
			}
		}
		toks := []string{"/", "@", "k", "ks", "vs", "x", ".", "0", "1", "-", "?", "%"}
		max := 4
		if c.Thorough() {
			max = 5
		}
		var rec func(prefix string, left int) bool
		rec = func(frag string, left int) bool {
			want, plain := fragOracle(s.res, m, frag, ids)
			if frag == "" {
				want, plain = nil, true
			}
			var got ecore.EObject
			c.Res.States++
			c.Res.Transitions++
			if p := mc.Panics(func() { got = s.res.GetEObject(frag) }); p != "" {
				c.Failf("strings:panic", "looking up the fragment %q panicked: %s\n%s", frag, p, mc.LastStack())
				return false
			}
			if got != want && (plain || got != nil) && !(mode == "incremental" && (!strings.HasPrefix(frag, "/") || strings.HasPrefix(frag, "/?"))) && !strings.HasSuffix(frag, "?") {
				c.Failf("strings:wrong", "the fragment %q gives %v, it designates %v", frag, s.indexOf(got), s.indexOf(want))
				return false
			}
			if left == 0 {
				return true
			}
			if left == 3 {
				c.Beat(func() string { return frag })
			}
			for _, t := range toks {
				if !rec(frag+t, left-1) {
					return false
				}
			}
			return true
		}
		rec("", max)
		for _, base := range []string{"//@ks.0/", "/0/@k", "//@ks", "/?k/"} {
			rec(base, max-1)
		}
		c.Res.Traces = c.Res.Transitions
	}}
}

func (s *fragSys) indexOf(o ecore.EObject) string {
	for i, x := range s.objs {
		if x == o {
			return fmt.Sprintf("object %d", i)
		}
	}
	if o == nil {
		return "nothing"
	}
	return "unknown"
}

// ---- names of model elements

var fragNames = []string{"", "a", "b", "a.1", "a.0", "a.-1", "a.+1", "a.", ".", "1", "@a", "@", "%", "%a%", "%%", "a b", "a/b", "é", "a%2E1", "a#b", "a?", "?a", "x@y", "a..1"}

func checkElementFragments(c *mc.Ctx, what string, res ecore.EResource, set ecore.EResourceSet, root ecore.EObject) bool {
	used := map[string]ecore.EObject{}
	ok := true
	p := mc.Panics(func() {
		check := func(o ecore.EObject) bool {
			frag := res.GetURIFragment(o)
			if q, dup := used[frag]; dup {
				return c.Failf("names", "%s: %s and %s have the fragment %q", what, elName(q), elName(o), frag)
			}
			used[frag] = o
			if got := res.GetEObject(frag); got != o {
				return c.Failf("names", "%s: the fragment %q of %s gives %s", what, frag, elName(o), elName(got))
			}
			if got := set.GetEObject(ecore.GetURI(o), false); got != o {
				return c.Failf("names", "%s: the URI %v of %s gives %s", what, ecore.GetURI(o), elName(o), elName(got))
			}
			c.Res.Transitions++
			return true
		}
		if ok = check(root); !ok {
			return
		}
		for it := root.EAllContents(); it.HasNext(); {
			if ok = check(it.Next().(ecore.EObject)); !ok {
				return
			}
		}
	})
	if p != "" {
		return c.Failf("names", "%s: panicked: %s\n%s", what, p, mc.LastStack())
	}
	return ok
}

func elName(o ecore.EObject) string {
	switch n := o.(type) {
	case nil:
		return "nothing"
	case ecore.ENamedElement:
		return fmt.Sprintf("%s %q", o.EClass().GetName(), n.GetName())
	case ecore.EAnnotation:
		return fmt.Sprintf("annotation %q", n.GetSource())
	}
	return o.EClass().GetName()
}

func fragNamesItem(kind string, first int) mc.Item {
	return mc.Item{Name: fmt.Sprintf("names/%s/%d", kind, first), Run: func(c *mc.Ctx) {
		fac := ecore.GetFactory()
		ns := fragNames
		third := []string{"", "a", "a.1", "@a"}
		if c.Thorough() {
			third = ns
		}
		n := 0
		for _, b := range ns {
			for _, d := range third {
				names := []string{ns[first], b, d}
				set := ecore.NewEResourceSetImpl()
				res := ecore.NewEResourceImpl()
				res.SetURI(ecore.NewURI("mem:/names"))
				set.GetResources().Add(res)
				pkg := fac.CreateEPackage()
				pkg.SetName("p")
				res.GetContents().Add(pkg)
				for _, name := range names {
					switch kind {
					case "classifiers":
						e := fac.CreateEClass()
						e.SetName(name)
						pkg.GetEClassifiers().Add(e)
					case "mixed":
						switch len(pkg.GetEClassifiers().ToArray()) + pkg.GetESubPackages().Size() + pkg.GetEAnnotations().Size() {
						case 0:
							e := fac.CreateEDataType()
							e.SetName(name)
							pkg.GetEClassifiers().Add(e)
						case 1:
							e := fac.CreateEPackage()
							e.SetName(name)
							pkg.GetESubPackages().Add(e)
						default:
							e := fac.CreateEAnnotation()
							e.SetSource(name)
							pkg.GetEAnnotations().Add(e)
						}
					case "features":
						if pkg.GetEClassifiers().Size() == 0 {
							e := fac.CreateEClass()
							e.SetName("C")
							pkg.GetEClassifiers().Add(e)
						}
						e := pkg.GetEClassifiers().Get(0).(ecore.EClass)
						f := fac.CreateEAttribute()
						f.SetName(name)
						e.GetEStructuralFeatures().Add(f)
						o := fac.CreateEOperation()
						o.SetName(name)
						e.GetEOperations().Add(o)
					case "annotations":
						e := fac.CreateEAnnotation()
						e.SetSource(name)
						pkg.GetEAnnotations().Add(e)
						e.GetDetails().Put("k", name)
						k := fac.CreateEAnnotation()
						k.SetSource(name)
						e.GetContents().Add(k)
						k2 := fac.CreateEAnnotation()
						k2.SetSource(name)
						e.GetEAnnotations().Add(k2)
					}
				}
				c.Res.States++
				if n++; n%16 == 0 {
					c.Beat(func() string { return strings.Join(names, ",") })
				}
				if !checkElementFragments(c, fmt.Sprintf("%s named %q", kind, names), res, set, pkg) {
					return
				}
			}
		}
		c.Res.Traces = c.Res.Transitions
	}}
}

// fragSegmentsItem: every string of tokens as segment below a package
func fragSegmentsItem() mc.Item {
	return mc.Item{Name: "segments", Run: func(c *mc.Ctx) {
		fac := ecore.GetFactory()
		res := ecore.NewEResourceImpl()
		res.SetURI(ecore.NewURI("mem:/names"))
		pkg := fac.CreateEPackage()
		pkg.SetName("p")
		res.GetContents().Add(pkg)
		for _, n := range []string{"a", "a", "1", ""} {
			e := fac.CreateEClass()
			e.SetName(n)
			pkg.GetEClassifiers().Add(e)
		}
		for _, n := range []string{"a", "", "a"} {
			e := fac.CreateEAnnotation()
			e.SetSource(n)
			pkg.GetEAnnotations().Add(e)
		}
		toks := []string{"%", "a", ".", "1", "0", "@", "eClassifiers", "name", "-", "/", "2E"}
		max := 5
		if c.Thorough() {
			max = 6
		}
		var rec func(frag string, left int) bool
		rec = func(frag string, left int) bool {
			var got ecore.EObject
			c.Res.States++
			c.Res.Transitions++
			if p := mc.Panics(func() { got = res.GetEObject(frag) }); p != "" {
				return c.Failf("segments:panic", "looking up the fragment %q panicked: %s\n%s", frag, p, mc.LastStack())
			}
			if got != nil {
				// what it found is named in the fragment
				name := ""
				switch e := got.(type) {
				case ecore.ENamedElement:
					name = e.GetName()
				case ecore.EAnnotation:
					name = e.GetSource()
				}
				if got != ecore.EObject(pkg) && name != "" && !strings.Contains(frag, name) && !strings.Contains(frag, "eClassifiers") {
					return c.Failf("segments:wrong", "the fragment %q gives %s", frag, elName(got))
				}
			}
			if left == 0 {
				return true
			}
			if left == 3 {
				c.Beat(func() string { return frag })
			}
			for _, t := range toks {
				if !rec(frag+t, left-1) {
					return false
				}
			}
			return true
		}
		rec("//", max)
		rec("//a/", max-1)
		c.Res.Traces = c.Res.Transitions
	}}
}

func c09Items(tier string) []mc.Item {
	var items []mc.Item
	modes := []string{"none", "attribute", "attribute-manager", "incremental", "uuid", "ulid", "both"}
	for _, kind := range allKinds {
		for _, mode := range modes {
			if kind != kDynamic && kind != kStoreMem && (mode == "ulid" || mode == "uuid") {
				continue
			}
			n := 3
			items = append(items, mc.Item{Name: "tree/" + kind + "/" + mode, Run: func(c *mc.Ctx) {
				m := fragMM()
				s0 := newFragSys(m, kind, mode, n)
				names := make([]string, len(s0.ops))
				for i, o := range s0.ops {
					names[i] = o.name
				}
				d, v := 4, 2
				if len(s0.ops) > 36 && kind != kDynamic && kind != kStoreMemC {
					d = 3
				}
				if c.Thorough() {
					d, v = 6, 4
				}
				e := &mc.Explore{Ops: names, New: func() mc.Machine { return newFragSys(m, kind, mode, n) }, MaxDepth: d, Variety: v, KeyPrefix: ""}
				e.Run(c)
				c.Res.Traces = c.Res.Transitions
			}})
		}
	}
	items = append(items, mc.Item{Name: "tree4/dynamic/none", Run: func(c *mc.Ctx) {
		m := fragMM()
		s0 := newFragSys(m, kDynamic, "none", 4)
		names := make([]string, len(s0.ops))
		for i, o := range s0.ops {
			names[i] = o.name
		}
		d := 3
		if c.Thorough() {
			d = 5
		}
		e := &mc.Explore{Ops: names, New: func() mc.Machine { return newFragSys(m, kDynamic, "none", 4) }, MaxDepth: d, Variety: 2}
		e.Run(c)
		c.Res.Traces = c.Res.Transitions
	}})
	for _, mode := range []string{"none", "attribute", "incremental"} {
		for _, roots := range []int{0, 1, 2} {
			for _, kind := range []string{kDynamic, kStoreMem} {
				items = append(items, fragStringsItem(kind, mode, roots))
			}
		}
	}
	for _, k := range []string{"classifiers", "mixed", "features", "annotations"} {
		for i := range fragNames {
			items = append(items, fragNamesItem(k, i))
		}
	}
	items = append(items, fragSegmentsItem())
	return items
}
