package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/masagroup/soft.go/ecore"
)

// ---------------------------------------------------------------------------
// exhaustive choices: a body that asks pick(n) is run once for every sequence
// of answers.

type chooser struct {
	path, lim []int
	pos       int
}

func (c *chooser) pick(n int) int {
	if n <= 0 {
		panic("pick of nothing")
	}
	if c.pos == len(c.path) {
		c.path = append(c.path, 0)
		c.lim = append(c.lim, n)
	}
	v := c.path[c.pos]
	if c.lim[c.pos] != n {
		panic("pick: the body is not deterministic")
	}
	c.pos++
	return v
}

func (c *chooser) bool() bool { return c.pick(2) == 1 }

// enumerate runs body for every sequence of choices until body returns false.
func enumerate(body func(*chooser) bool) int64 {
	c := &chooser{}
	var n int64
	for {
		c.pos = 0
		n++
		if !body(c) {
			return n
		}
		c.path, c.lim = c.path[:c.pos], c.lim[:c.pos]
		i := len(c.path) - 1
		for i >= 0 && c.path[i] == c.lim[i]-1 {
			i--
		}
		if i < 0 {
			return n
		}
		c.path[i]++
		c.path, c.lim = c.path[:i+1], c.lim[:i+1]
	}
}

// ---------------------------------------------------------------------------
// the metamodel of the models

var modelAttrTypes = []string{"string", "int", "bool", "float64", "float32", "int64", "int16", "byte", "bytes", "date", "char", "bigint"}

func modelMM(nsURI string) *mm {
	base := cspec{name: "Base", feats: []fspec{
		{name: "bname", typ: "string"},
		{name: "bref", typ: "Base", ref: true},
		{name: "brefs", typ: "Base", ref: true, many: true},
		{name: "bkid", typ: "Base", ref: true, cont: true},
		{name: "bkids", typ: "Base", ref: true, many: true, cont: true},
	}}
	node := cspec{name: "Node", supers: []string{"Base"}, feats: []fspec{
		{name: "kid", typ: "Base", ref: true, cont: true},
		{name: "kids", typ: "Base", ref: true, many: true, cont: true},
		{name: "ckid", typ: "Node", ref: true, cont: true, opp: "Node.cparent"},
		{name: "cparent", typ: "Node", ref: true, opp: "Node.ckid"},
		{name: "ckids", typ: "Node", ref: true, many: true, cont: true, opp: "Node.parent"},
		{name: "parent", typ: "Node", ref: true, opp: "Node.ckids"},
		{name: "ref", typ: "Base", ref: true},
		{name: "refs", typ: "Base", ref: true, many: true},
		{name: "nref", typ: "Base", ref: true, noResolve: true},
		{name: "nrefs", typ: "Base", ref: true, many: true, noResolve: true},
		{name: "oo", typ: "Node", ref: true, opp: "Node.ooi"},
		{name: "ooi", typ: "Node", ref: true, opp: "Node.oo"},
		{name: "om", typ: "Node", ref: true, many: true, opp: "Node.omi"},
		{name: "omi", typ: "Node", ref: true, opp: "Node.om"},
		{name: "mm", typ: "Node", ref: true, many: true, opp: "Node.mmi"},
		{name: "mmi", typ: "Node", ref: true, many: true, opp: "Node.mm"},
		{name: "tref", typ: "Base", ref: true, transient: true},
		{name: "tkid", typ: "Base", ref: true, cont: true, transient: true},
		{name: "map", typ: "StrEntry", ref: true, many: true, cont: true},
		{name: "omap", typ: "ObjEntry", ref: true, many: true, cont: true},
		{name: "kmap", typ: "KidEntry", ref: true, many: true, cont: true},
		{name: "t_string", typ: "string", transient: true},
		{name: "d_string", typ: "string", def: "dflt"},
		{name: "d_int", typ: "int", def: "3"},
		{name: "u_string", typ: "string", unsettable: true},
		{name: "x_string", typ: "string", unsettable: true, def: "dflt"},
		{name: "n_string", typ: "string", many: true, nonUnique: true},
		{name: "n_int", typ: "int", many: true, nonUnique: true},
	}}
	for _, t := range modelAttrTypes {
		node.feats = append(node.feats, fspec{name: "a_" + t, typ: t}, fspec{name: "l_" + t, typ: t, many: true, nonUnique: t == "bytes"})
	}
	return newMM(nsURI, []cspec{base, node,
		{name: "Leaf", supers: []string{"Node"}, feats: []fspec{
			{name: "lname", typ: "string"},
			{name: "lref", typ: "Base", ref: true},
			{name: "lkids", typ: "Base", ref: true, many: true, cont: true}}},
		{name: "StrEntry", mapEntry: true, feats: []fspec{{name: "key", typ: "string"}, {name: "value", typ: "string"}}},
		{name: "ObjEntry", mapEntry: true, feats: []fspec{{name: "key", typ: "string"}, {name: "value", typ: "Base", ref: true}}},
		{name: "KidEntry", mapEntry: true, feats: []fspec{{name: "key", typ: "string"}, {name: "value", typ: "Base", ref: true, cont: true}}},
	})
}

// feature finds a feature of a class by name, inherited ones included.
func (m *mm) feature(class, name string) ecore.EStructuralFeature {
	f := m.classes[class].GetEStructuralFeatureFromName(name)
	if f == nil {
		panic("no feature " + class + "." + name)
	}
	return f
}

// ---------------------------------------------------------------------------
// models as plain data

type mnode struct {
	class string
	attrs map[string]any   // []any for many-valued ones
	refs  map[string][]int // node, or a proxy when negative
}

type mlink struct {
	a int
	f string
	b int
}

type mspec struct {
	m     *mm
	nodes []*mnode
	links []mlink // in the order they are made
	roots []int
	sets  []mlink // attributes set: node, feature (value in attrs)
}

func newSpec(m *mm) *mspec { return &mspec{m: m} }

func (s *mspec) node(class string) int {
	s.nodes = append(s.nodes, &mnode{class: class, attrs: map[string]any{}, refs: map[string][]int{}})
	return len(s.nodes) - 1
}

func (s *mspec) root(class string) int {
	n := s.node(class)
	s.roots = append(s.roots, n)
	return n
}

func (s *mspec) set(n int, f string, v any) {
	s.nodes[n].attrs[f] = v
	s.sets = append(s.sets, mlink{n, f, 0})
}

func (s *mspec) fspecOf(n int, f string) ecore.EReference {
	return s.m.feature(s.nodes[n].class, f).(ecore.EReference)
}

// free tells whether a.f = b takes nothing away from anybody
func (s *mspec) free(a int, f string, b int) bool {
	r := s.fspecOf(a, f)
	l := s.nodes[a].refs[f]
	if !r.IsMany() && len(l) > 0 {
		return false
	}
	for _, x := range l {
		if x == b {
			return false
		}
	}
	if o := r.GetEOpposite(); o != nil && b >= 0 && !o.IsMany() && len(s.nodes[b].refs[o.GetName()]) > 0 {
		return false
	}
	return true
}

func (s *mspec) link(a int, f string, b int) {
	r := s.fspecOf(a, f)
	s.links = append(s.links, mlink{a, f, b})
	s.nodes[a].refs[f] = append(s.nodes[a].refs[f], b)
	if o := r.GetEOpposite(); o != nil && b >= 0 {
		s.nodes[b].refs[o.GetName()] = append(s.nodes[b].refs[o.GetName()], a)
	}
}

// child makes a node contained by p
func (s *mspec) child(p int, f string, class string) int {
	n := s.node(class)
	s.link(p, f, n)
	return n
}

func (s *mspec) String() string {
	var b strings.Builder
	for i, n := range s.nodes {
		fmt.Fprintf(&b, "n%d=%s", i, n.class)
		for _, r := range s.roots {
			if r == i {
				b.WriteString(" (root)")
			}
		}
		for _, x := range s.sets {
			if x.a == i {
				fmt.Fprintf(&b, " %s=%s", x.f, showVal(n.attrs[x.f]))
			}
		}
		b.WriteString("; ")
	}
	for _, l := range s.links {
		if l.b < 0 {
			fmt.Fprintf(&b, "n%d.%s+=proxy%d ", l.a, l.f, -l.b)
		} else {
			fmt.Fprintf(&b, "n%d.%s+=n%d ", l.a, l.f, l.b)
		}
	}
	return b.String()
}

func proxyURI(k int) string { return fmt.Sprintf("ext.xmi#//@kids.%d", -k) }

// build makes the model's objects with a maker of objects.
func (s *mspec) build(mk func(class string) ecore.EObject) []ecore.EObject {
	objs := make([]ecore.EObject, len(s.nodes))
	for i, n := range s.nodes {
		objs[i] = mk(n.class)
	}
	for _, x := range s.sets {
		n := s.nodes[x.a]
		f := s.m.feature(n.class, x.f)
		if f.IsMany() {
			l := objs[x.a].EGet(f).(ecore.EList)
			for _, v := range n.attrs[x.f].([]any) {
				l.Add(v)
			}
		} else {
			objs[x.a].ESet(f, n.attrs[x.f])
		}
	}
	proxies := map[int]ecore.EObject{}
	for _, l := range s.links {
		f := s.fspecOf(l.a, l.f)
		var b ecore.EObject
		if l.b >= 0 {
			b = objs[l.b]
		} else if b = proxies[l.b]; b == nil || f.IsContainment() {
			b = mk(f.GetEReferenceType().GetName())
			b.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(proxyURI(l.b)))
			proxies[l.b] = b
		}
		if f.IsMany() {
			objs[l.a].EGetResolve(f, false).(ecore.EList).Add(b)
		} else {
			objs[l.a].ESet(f, b)
		}
	}
	return objs
}

func (s *mspec) dynamic() []ecore.EObject {
	return s.build(func(class string) ecore.EObject {
		c := s.m.classes[class]
		return c.GetEPackage().GetEFactoryInstance().Create(c)
	})
}

// ---------------------------------------------------------------------------
// canonical text, of plain data and of objects

func showVal(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("bytes:%x", x)
	case *time.Time:
		if x == nil {
			return "nil time"
		}
		return "time:" + x.UTC().Format(time.RFC3339Nano)
	case []any:
		var b []string
		for _, e := range x {
			b = append(b, showVal(e))
		}
		return "[" + strings.Join(b, " ") + "]"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

type textOpts struct {
	transient bool // transient features too
	// resolved: proxies are resolved where they can be; those that stay, in
	// references that do not resolve them, show as what they designate.
	resolved *ecore.EResourceSetImpl
}

// className is the name of a class, with its package's unless that is "p".
func className(c ecore.EClass) string {
	if p := c.GetEPackage(); p != nil && p.GetName() != "p" {
		return p.GetName() + "." + c.GetName()
	}
	return c.GetName()
}

// order numbers the nodes of the trees below the roots.
func (s *mspec) order(roots []int, o textOpts) (order []int, num map[int]int) {
	num = map[int]int{}
	var walk func(n int)
	walk = func(n int) {
		num[n] = len(order)
		order = append(order, n)
		for it := s.m.classes[s.nodes[n].class].GetEAllReferences().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EReference)
			if f.IsContainment() && (o.transient || !f.IsTransient()) {
				for _, c := range s.nodes[n].refs[f.GetName()] {
					if c >= 0 {
						walk(c)
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return
}

func (s *mspec) text(roots []int, o textOpts) string {
	order, num := s.order(roots, o)
	var b strings.Builder
	for i, n := range order {
		nd := s.nodes[n]
		fmt.Fprintf(&b, "%d:%s", i, className(s.m.classes[nd.class]))
		for it := s.m.classes[nd.class].GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			if f.IsTransient() && !o.transient {
				continue
			}
			name := f.GetName()
			if _, ok := f.(ecore.EReference); ok {
				l := nd.refs[name]
				if _, ok := nd.attrs[name]; len(l) == 0 && !ok {
					continue
				}
				fmt.Fprintf(&b, " %s=", name)
				for _, x := range l {
					if x < 0 {
						fmt.Fprintf(&b, "<%s>", proxyURI(x))
					} else if k, ok := num[x]; ok {
						fmt.Fprintf(&b, "#%d ", k)
					} else {
						fmt.Fprintf(&b, "ext%d ", x)
					}
				}
			} else if v, ok := nd.attrs[name]; ok {
				if l, ok := v.([]any); ok && len(l) == 0 {
					continue
				}
				fmt.Fprintf(&b, " %s=%s", name, showVal(v))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

// textOf gives the canonical text of real objects; ext names the objects that
// are not below the roots.
func textOf(roots []ecore.EObject, ext map[ecore.EObject]int, o textOpts) string {
	t, _ := textOrder(roots, ext, o)
	return t
}

// textOrder gives the objects in the order of the text too.
func textOrder(roots []ecore.EObject, ext map[ecore.EObject]int, o textOpts) (string, []ecore.EObject) {
	num := map[ecore.EObject]int{}
	var order []ecore.EObject
	// designated is what a proxy stands for
	designated := func(v any) any {
		if x, _ := v.(ecore.EObject); x != nil && x.EIsProxy() && o.resolved != nil {
			uri := x.(ecore.EObjectInternal).EProxyURI()
			if r := o.resolved.GetResource(uri.TrimFragment(), false); r != nil {
				if y := r.GetEObject(uri.Fragment()); y != nil {
					return y
				}
			}
		}
		return v
	}
	values := func(x ecore.EObject, f ecore.EStructuralFeature) []any {
		v := x.EGetResolve(f, o.resolved != nil)
		if f.IsMany() {
			l := v.(ecore.EList)
			if o.resolved != nil {
				r := []any{}
				for it := l.Iterator(); it.HasNext(); {
					r = append(r, designated(it.Next()))
				}
				return r
			}
			if ol, ok := l.(ecore.EObjectList); ok {
				l = ol.GetUnResolvedList()
			}
			return l.ToArray()
		}
		if isNil(v) {
			return nil
		}
		return []any{designated(v)}
	}
	var walk func(x ecore.EObject)
	walk = func(x ecore.EObject) {
		if _, ok := num[x]; ok {
			return
		}
		num[x] = len(order)
		order = append(order, x)
		for it := x.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EReference)
			if f.IsContainment() && (o.transient || !f.IsTransient()) {
				for _, c := range values(x, f) {
					if o, _ := c.(ecore.EObject); o != nil && !o.EIsProxy() {
						walk(o)
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	var b strings.Builder
	for i, x := range order {
		fmt.Fprintf(&b, "%d:%s", i, className(x.EClass()))
		for it := x.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			if f.IsTransient() && !o.transient {
				continue
			}
			if !x.EIsSet(f) {
				continue
			}
			fmt.Fprintf(&b, " %s=", f.GetName())
			if _, ok := f.(ecore.EReference); ok {
				for _, v := range values(x, f) {
					o, _ := v.(ecore.EObject)
					if o == nil {
						fmt.Fprintf(&b, "nil:%T ", v)
					} else if k, ok := num[o]; ok {
						fmt.Fprintf(&b, "#%d ", k)
					} else if k, ok := ext[o]; ok {
						fmt.Fprintf(&b, "ext%d ", k)
					} else if o.EIsProxy() {
						fmt.Fprintf(&b, "<%s>", o.(ecore.EObjectInternal).EProxyURI())
					} else {
						fmt.Fprintf(&b, "?%s ", o.EClass().GetName())
					}
				}
			} else if f.IsMany() {
				b.WriteString(showVal(values(x, f)))
			} else {
				b.WriteString(showVal(x.EGet(f)))
			}
		}
		b.WriteString("\n")
	}
	return b.String(), order
}

// diffText shows the first lines that differ.
func diffText(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("expected %s\n     got %s", a, b)
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// families of small models, each the exhaustive enumeration of one aspect

type modelFamily struct {
	name string
	gen  func(s *mspec, c *chooser, d int)
}

func ptime(s string) *time.Time {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return &t
}

func sampleValues(t string) []any {
	switch t {
	case "string":
		return []any{"", "a", " x ", "<&\"'>"}
	case "int":
		return []any{0, -1, 1 << 62}
	case "bool":
		return []any{true, false}
	case "float64":
		return []any{0.0, 1.5, -1e300, 5e-324}
	case "float32":
		return []any{float32(0), float32(1.1), float32(-3e38)}
	case "int64", "bigint":
		return []any{int64(0), int64(-9223372036854775808), int64(9223372036854775807)}
	case "int16":
		return []any{int16(0), int16(-32768), int16(32767)}
	case "byte", "char":
		return []any{byte('a'), byte('0'), byte(' ')}
	case "bytes":
		return []any{[]byte("a"), []byte("xyz 1")}
	case "date":
		return []any{ptime("2020-02-29T23:59:59.999Z"), ptime("1970-01-01T00:00:00Z")}
	}
	panic(t)
}

var contFeats = []string{"bkid", "bkids", "kid", "kids", "ckid", "ckids"}

// modelFamilies: tree shapes, cross references of each kind, attributes of
// each type, maps, proxies.
func modelFamilies() []modelFamily {
	var fs []modelFamily
	add := func(name string, gen func(s *mspec, c *chooser, d int)) {
		fs = append(fs, modelFamily{name, gen})
	}
	// every tree of up to 4 nodes
	for _, two := range []bool{false, true} {
		name := "tree/one-root"
		if two {
			name = "tree/two-roots"
		}
		add(name, func(s *mspec, c *chooser, d int) {
			classes := []string{"Node", "Leaf"}
			s.root("Node")
			if two {
				s.root(classes[c.pick(2)])
			}
			for k, n := 0, c.pick(d+1); k < n; k++ {
				p := c.pick(len(s.nodes))
				f := contFeats[c.pick(len(contFeats))]
				cl := classes[c.pick(2)]
				probe := s.node(cl)
				if !s.free(p, f, probe) {
					s.nodes = s.nodes[:probe]
					continue
				}
				s.link(p, f, probe)
			}
		})
	}
	// cross references of one feature over a fixed tree and an object outside
	for _, f := range []string{"bref", "brefs", "ref", "refs", "nref", "nrefs", "oo", "om", "omi", "mm", "mmi", "lref"} {
		add("refs/"+f, func(s *mspec, c *chooser, d int) {
			r := s.root("Leaf")
			a := s.child(r, "kids", "Leaf")
			s.child(a, "kid", "Leaf")
			s.root("Leaf")
			for k, m := 0, c.pick(d+1); k < m; k++ {
				x, y := c.pick(4), c.pick(4)
				if s.free(x, f, y) {
					s.link(x, f, y)
				}
			}
		})
	}
	// two features at once
	for _, p := range [][2]string{{"ref", "refs"}, {"oo", "om"}, {"om", "mm"}, {"bref", "lref"}, {"mm", "mmi"}, {"refs", "nrefs"}} {
		add("refs2/"+p[0]+"+"+p[1], func(s *mspec, c *chooser, d int) {
			r := s.root("Leaf")
			s.child(r, "kids", "Leaf")
			s.child(r, "kids", "Leaf")
			for k, m := 0, c.pick(d+1); k < m; k++ {
				f := p[c.pick(2)]
				x, y := c.pick(3), c.pick(3)
				if s.free(x, f, y) {
					s.link(x, f, y)
				}
			}
		})
	}
	// attributes
	for _, t := range modelAttrTypes {
		add("attr/"+t, func(s *mspec, c *chooser, d int) {
			r := s.root("Node")
			vs := sampleValues(t)
			if k := c.pick(len(vs) + 1); k > 0 {
				s.set(r, "a_"+t, vs[k-1])
			}
			l := []any{}
			for k, m := 0, c.pick(d+1); k < m; k++ {
				v := vs[c.pick(len(vs))]
				dup := false
				for _, x := range l {
					dup = dup || showVal(x) == showVal(v)
				}
				if !dup {
					l = append(l, v)
				}
			}
			if len(l) > 0 {
				s.set(r, "l_"+t, l)
			}
		})
	}
	add("attr/special", func(s *mspec, c *chooser, d int) {
		r := s.root("Leaf")
		for _, f := range []string{"bname", "d_string", "u_string", "x_string", "lname"} {
			vs := []any{"dflt", "", "other"}
			if k := c.pick(len(vs) + 1); k > 0 {
				s.set(r, f, vs[k-1])
			}
		}
		if k := c.pick(3); k > 0 {
			s.set(r, "d_int", []any{3, 0}[k-1])
		}
	})
	add("attr/transient", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		k := s.child(r, "kid", "Node")
		if c.bool() {
			s.set(r, "t_string", "t")
		}
		if c.bool() {
			s.link(r, "tref", k)
		}
		if c.bool() {
			s.child(k, "tkid", "Node")
		}
		if c.bool() {
			s.link(k, "tref", r)
		}
	})
	add("attr/lists", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		for _, f := range []string{"n_string", "n_int"} {
			vs := []any{"", "b", "b c"}
			if f == "n_int" {
				vs = []any{1, 2}
			}
			l := []any{}
			for k, m := 0, c.pick(d+1); k < m; k++ {
				l = append(l, vs[c.pick(len(vs))])
			}
			if len(l) > 0 {
				s.set(r, f, l)
			}
		}
	})
	// maps
	add("map/string", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		for k, m := 0, c.pick(min(d, 3)+1); k < m; k++ {
			e := s.child(r, "map", "StrEntry")
			if x := c.pick(4); x > 0 {
				s.set(e, "key", []any{"", "k", "l"}[x-1])
			}
			if x := c.pick(3); x > 0 {
				s.set(e, "value", []any{"", "v"}[x-1])
			}
		}
	})
	add("map/references", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		s.child(r, "kids", "Node")
		s.root("Base")
		for k, m := 0, c.pick(min(d, 3)+1); k < m; k++ {
			e := s.child(r, "omap", "ObjEntry")
			s.set(e, "key", []any{"k", "l"}[c.pick(2)])
			if x := c.pick(4); x > 0 {
				s.link(e, "value", x-1)
			}
		}
	})
	add("map/contained", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		for k, m := 0, c.pick(d+1); k < m; k++ {
			e := s.child(r, "kmap", "KidEntry")
			s.set(e, "key", []any{"k", "l"}[c.pick(2)])
			if c.bool() {
				s.child(e, "value", "Node")
			}
		}
	})
	// proxies
	add("proxy/refs", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		k := s.child(r, "kids", "Node")
		for _, f := range []string{"ref", "refs", "nref", "nrefs"} {
			n := 1
			if f == "refs" || f == "nrefs" {
				n = 2
			}
			for i, m := 0, c.pick(n+1); i < m; i++ {
				t := []int{-1, -2, k}[c.pick(3)]
				if s.free(r, f, t) {
					s.link(r, f, t)
				}
			}
		}
	})
	return fs
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
