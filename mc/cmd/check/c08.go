package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

func init() {
	register(&mc.Check{ID: "C08", Level: "model_checking",
		Rule:        "from every one of a set of small hierarchies (three classes, four features, three operations): every sequence read-everything-or-nothing, edit, read of any one derived list of any one class (or of all or none), edit, over all edits of super types, features, operations and their properties; then every derived answer of every class is compared with its recomputation from the current hierarchy, in two reading orders (the quick tier spreads the partial reads over the pairs of edits). Longer edit histories breadth-first over the hierarchies' states with everything read after every edit. The same for classifiers of a package, for the types and default values of features, and for super types that are proxies.",
		Assumptions: []string{"no class is its own super type", "feature names are distinct inside a hierarchy unless an edit renames them, then any of the equally named features may be found"},
		Items:       c08Items})
}

// hier is a metamodel under edit; the oracle only uses the primary lists.
type hier struct {
	pkg   ecore.EPackage
	cs    []ecore.EClass
	fs    []ecore.EStructuralFeature // attributes a0,a1, references r2,r3
	os    []ecore.EOperation
	held  []ecore.EList
	names map[any]string
}

func (h *hier) sup(c int) ecore.EList   { return h.cs[c].GetESuperTypes() }
func (h *hier) feats(c int) ecore.EList { return h.cs[c].GetEStructuralFeatures() }
func (h *hier) ops(c int) ecore.EList   { return h.cs[c].GetEOperations() }

type hedit struct {
	name string
	do   func(h *hier)
	ok   func(h *hier) bool
}

func newHier() *hier {
	fac := ecore.GetFactory()
	h := &hier{names: map[any]string{}}
	h.pkg = fac.CreateEPackage()
	h.pkg.SetName("p")
	h.pkg.SetNsURI("http://c08")
	for i := 0; i < 3; i++ {
		c := fac.CreateEClass()
		c.SetName(string(rune('A' + i)))
		h.cs = append(h.cs, c)
		h.names[c] = c.GetName()
		h.pkg.GetEClassifiers().Add(c)
	}
	for i := 0; i < 4; i++ {
		var f ecore.EStructuralFeature
		if i < 2 {
			f = fac.CreateEAttribute()
			f.SetName(fmt.Sprintf("a%d", i))
			f.SetEType(dataType("string"))
		} else {
			f = fac.CreateEReference()
			f.SetName(fmt.Sprintf("r%d", i))
			f.SetEType(h.cs[0])
		}
		h.fs = append(h.fs, f)
		h.names[f] = f.GetName()
	}
	for i := 0; i < 3; i++ {
		o := fac.CreateEOperation()
		o.SetName(fmt.Sprintf("o%d", i))
		h.os = append(h.os, o)
		h.names[o] = o.GetName()
	}
	return h
}

// isSup: a is b or above it, by the primary lists
func isSup(a, b ecore.EClass) bool {
	if a == b {
		return true
	}
	for it := b.GetESuperTypes().Iterator(); it.HasNext(); {
		if isSup(a, it.Next().(ecore.EClass)) {
			return true
		}
	}
	return false
}

func hierEdits() []hedit {
	var es []hedit
	add := func(name string, do func(h *hier), ok func(h *hier) bool) {
		es = append(es, hedit{name, do, ok})
	}
	cn := func(i int) string { return string(rune('A' + i)) }
	for c := 0; c < 3; c++ {
		c := c
		for d := 0; d < 3; d++ {
			d := d
			if c == d {
				continue
			}
			noCycle := func(h *hier) bool { return !isSup(h.cs[c], h.cs[d]) && !h.sup(c).Contains(h.cs[d]) }
			add(cn(c)+".supers.add("+cn(d)+")", func(h *hier) { h.sup(c).Add(h.cs[d]) }, noCycle)
			add(cn(c)+".supers.insert(0,"+cn(d)+")", func(h *hier) { h.sup(c).Insert(0, h.cs[d]) }, noCycle)
			add(cn(c)+".supers.set(0,"+cn(d)+")", func(h *hier) { h.sup(c).Set(0, h.cs[d]) }, func(h *hier) bool { return noCycle(h) && h.sup(c).Size() > 0 })
			add(cn(c)+".supers.remove("+cn(d)+")", func(h *hier) { h.sup(c).Remove(h.cs[d]) }, func(h *hier) bool { return h.sup(c).Contains(h.cs[d]) })
			for e := d + 1; e < 3; e++ {
				e := e
				if e == c {
					continue
				}
				two := func(h *hier) ecore.EList { return ecore.NewBasicEList([]any{h.cs[d], h.cs[e]}) }
				add(cn(c)+".supers.addall("+cn(d)+cn(e)+")", func(h *hier) { h.sup(c).AddAll(two(h)) }, func(h *hier) bool {
					return !isSup(h.cs[c], h.cs[d]) && !isSup(h.cs[c], h.cs[e]) && h.sup(c).Size() == 0
				})
				add(cn(c)+".supers.removeall("+cn(d)+cn(e)+")", func(h *hier) { h.sup(c).RemoveAll(two(h)) }, func(h *hier) bool { return h.sup(c).Size() > 0 })
				add("set "+cn(c)+".supers=["+cn(e)+cn(d)+"]", func(h *hier) {
					h.cs[c].ESet(ecore.GetPackage().GetEClass_ESuperTypes(), ecore.NewBasicEList([]any{h.cs[e], h.cs[d]}))
				}, func(h *hier) bool {
					return !isSup(h.cs[c], h.cs[d]) && !isSup(h.cs[c], h.cs[e])
				})
			}
		}
		add(cn(c)+".supers.clear()", func(h *hier) { h.sup(c).Clear() }, func(h *hier) bool { return h.sup(c).Size() > 0 })
		add(cn(c)+".supers.move(0,1)", func(h *hier) { h.sup(c).Move(0, 1) }, func(h *hier) bool { return h.sup(c).Size() > 1 })
		for f := 0; f < 4; f++ {
			f := f
			fn := []string{"a0", "a1", "r2", "r3"}[f]
			has := func(h *hier) bool { return h.feats(c).Contains(h.fs[f]) }
			hasNot := func(h *hier) bool { return !has(h) }
			add(cn(c)+".features.add("+fn+")", func(h *hier) { h.feats(c).Add(h.fs[f]) }, hasNot)
			add(cn(c)+".features.insert(0,"+fn+")", func(h *hier) { h.feats(c).Insert(0, h.fs[f]) }, func(h *hier) bool { return hasNot(h) && h.feats(c).Size() > 0 })
			add(cn(c)+".features.remove("+fn+")", func(h *hier) { h.feats(c).Remove(h.fs[f]) }, has)
			add(cn(c)+".features.set(0,"+fn+")", func(h *hier) { h.feats(c).Set(0, h.fs[f]) }, func(h *hier) bool { return hasNot(h) && h.feats(c).Size() > 0 })
		}
		add(cn(c)+".features.addall(a1r3)", func(h *hier) { h.feats(c).AddAll(ecore.NewBasicEList([]any{h.fs[1], h.fs[3]})) }, func(h *hier) bool { return !h.feats(c).Contains(h.fs[1]) && !h.feats(c).Contains(h.fs[3]) })
		add(cn(c)+".features.clear()", func(h *hier) { h.feats(c).Clear() }, func(h *hier) bool { return h.feats(c).Size() > 0 })
		add(cn(c)+".features.move(0,1)", func(h *hier) { h.feats(c).Move(0, 1) }, func(h *hier) bool { return h.feats(c).Size() > 1 })
		for o := 0; o < 3; o++ {
			o := o
			on := fmt.Sprintf("o%d", o)
			has := func(h *hier) bool { return h.ops(c).Contains(h.os[o]) }
			add(cn(c)+".operations.add("+on+")", func(h *hier) { h.ops(c).Add(h.os[o]) }, func(h *hier) bool { return !has(h) })
			add(cn(c)+".operations.remove("+on+")", func(h *hier) { h.ops(c).Remove(h.os[o]) }, has)
		}
		add(cn(c)+".operations.insert(0,o1)", func(h *hier) { h.ops(c).Insert(0, h.os[1]) }, func(h *hier) bool { return !h.ops(c).Contains(h.os[1]) && h.ops(c).Size() > 0 })
		add(cn(c)+".operations.move(0,1)", func(h *hier) { h.ops(c).Move(0, 1) }, func(h *hier) bool { return h.ops(c).Size() > 1 })
		add(cn(c)+".operations.clear()", func(h *hier) { h.ops(c).Clear() }, func(h *hier) bool { return h.ops(c).Size() > 0 })
	}
	for f := 0; f < 4; f++ {
		f := f
		fn := []string{"a0", "a1", "r2", "r3"}[f]
		add("rename "+fn, func(h *hier) {
			if strings.HasPrefix(h.fs[f].GetName(), "x") {
				h.fs[f].SetName(fn)
			} else {
				h.fs[f].SetName("x")
			}
		}, nil)
		add("toggle derived "+fn, func(h *hier) { h.fs[f].SetDerived(!h.fs[f].IsDerived()) }, nil)
		if f < 2 {
			add("toggle id "+fn, func(h *hier) { a := h.fs[f].(ecore.EAttribute); a.SetID(!a.IsID()) }, nil)
			continue
		}
		add("toggle containment "+fn, func(h *hier) { r := h.fs[f].(ecore.EReference); r.SetContainment(!r.IsContainment()) }, nil)
		add("toggle opposite "+fn, func(h *hier) {
			r, q := h.fs[f].(ecore.EReference), h.fs[5-f].(ecore.EReference)
			if r.GetEOpposite() == nil {
				r.SetEOpposite(q)
				q.SetEOpposite(r)
			} else {
				r.SetEOpposite(nil)
				q.SetEOpposite(nil)
			}
		}, nil)
		for c := 1; c < 3; c++ {
			c := c
			add("type of "+fn+"="+cn(c), func(h *hier) { h.fs[f].SetEType(h.cs[c]) }, func(h *hier) bool { return h.fs[f].GetEType() != ecore.EClassifier(h.cs[c]) })
		}
		add("type of "+fn+"=nil", func(h *hier) { h.fs[f].SetEType(nil) }, func(h *hier) bool { return h.fs[f].GetEType() != nil })
	}
	add("rename o1 to o0", func(h *hier) {
		if h.os[1].GetName() == "o1" {
			h.os[1].SetName("o0")
		} else {
			h.os[1].SetName("o1")
		}
	}, nil)
	add("toggle parameter of o1", func(h *hier) {
		l := h.os[1].GetEParameters()
		if l.Empty() {
			p := ecore.GetFactory().CreateEParameter()
			p.SetEType(dataType("int"))
			l.Add(p)
		} else {
			l.Clear()
		}
	}, nil)
	add("rename o2 to o0", func(h *hier) {
		if h.os[2].GetName() == "o2" {
			h.os[2].SetName("o0")
		} else {
			h.os[2].SetName("o2")
		}
	}, nil)
	add("type of o1's parameter", func(h *hier) {
		p := h.os[1].GetEParameters().Get(0).(ecore.EParameter)
		if p.GetEType() == dataType("int") {
			p.SetEType(dataType("string"))
		} else {
			p.SetEType(dataType("int"))
		}
	}, func(h *hier) bool { return !h.os[1].GetEParameters().Empty() })
	for c := 0; c < 3; c++ {
		c := c
		add("rename class "+cn(c), func(h *hier) {
			if h.cs[c].GetName() == "X" {
				h.cs[c].SetName(cn(c))
			} else {
				h.cs[c].SetName("X")
			}
		}, nil)
	}
	add("classifiers.remove(A)", func(h *hier) { h.pkg.GetEClassifiers().Remove(h.cs[0]) }, func(h *hier) bool { return h.pkg.GetEClassifiers().Contains(h.cs[0]) })
	add("classifiers.add(A)", func(h *hier) { h.pkg.GetEClassifiers().Add(h.cs[0]) }, func(h *hier) bool { return !h.pkg.GetEClassifiers().Contains(h.cs[0]) })
	return es
}

// ---------------------------------------------------------------------------
// the derived answers and their recomputation

type hread struct {
	name string
	real func(h *hier, c int) string
	want func(h *hier, c int) []string // acceptable answers
}

func (h *hier) list(l ecore.EList) string {
	var b []string
	for it := l.Iterator(); it.HasNext(); {
		b = append(b, h.name(it.Next()))
	}
	return strings.Join(b, ",")
}

func (h *hier) name(x any) string {
	if x == nil {
		return "-"
	}
	if n, ok := h.names[x]; ok {
		return n
	}
	return fmt.Sprintf("?%T", x)
}

func (h *hier) slice(l []any) string {
	var b []string
	for _, x := range l {
		b = append(b, h.name(x))
	}
	return strings.Join(b, ",")
}

func uniqAdd(l []any, xs ...any) []any {
	for _, x := range xs {
		found := false
		for _, y := range l {
			found = found || x == y
		}
		if !found {
			l = append(l, x)
		}
	}
	return l
}

// allOf recomputes an inherited list.
func allOf(c ecore.EClass, own func(ecore.EClass) []any) []any {
	var r []any
	for it := c.GetESuperTypes().Iterator(); it.HasNext(); {
		r = uniqAdd(r, allOf(it.Next().(ecore.EClass), own)...)
	}
	return uniqAdd(r, own(c)...)
}

func ownFeatures(c ecore.EClass) []any {
	var r []any
	for it := c.GetEStructuralFeatures().Iterator(); it.HasNext(); {
		r = append(r, it.Next())
	}
	return r
}

func ownOperations(c ecore.EClass) []any {
	var r []any
	for it := c.GetEOperations().Iterator(); it.HasNext(); {
		r = append(r, it.Next())
	}
	return r
}

func supersOf(c ecore.EClass) []any {
	var r []any
	for it := c.GetESuperTypes().Iterator(); it.HasNext(); {
		s := it.Next().(ecore.EClass)
		r = uniqAdd(r, supersOf(s)...)
		r = uniqAdd(r, s)
	}
	return r
}

func filter(l []any, f func(any) bool) []any {
	var r []any
	for _, x := range l {
		if f(x) {
			r = append(r, x)
		}
	}
	return r
}

func isAttr(x any) bool { _, ok := x.(ecore.EAttribute); return ok }
func isRef(x any) bool  { _, ok := x.(ecore.EReference); return ok }
func isCont(x any) bool { r, ok := x.(ecore.EReference); return ok && r.IsContainment() }
func isContainerRef(x any) bool {
	r, ok := x.(ecore.EReference)
	return ok && r.GetEOpposite() != nil && r.GetEOpposite().IsContainment()
}
func isDerived(x any) bool { return x.(ecore.EStructuralFeature).IsDerived() }

func hierReads() []hread {
	var rs []hread
	add := func(name string, real func(h *hier, c int) string, want func(h *hier, c int) []string) {
		rs = append(rs, hread{name, real, want})
	}
	lst := func(name string, get func(c ecore.EClass) ecore.EList, want func(c ecore.EClass) []any) {
		add(name, func(h *hier, c int) string { return h.list(get(h.cs[c])) }, func(h *hier, c int) []string { return []string{h.slice(want(h.cs[c]))} })
	}
	all := func(c ecore.EClass) []any { return allOf(c, ownFeatures) }
	cross := func(x any) bool { return isRef(x) && !isCont(x) && !isContainerRef(x) }
	lst("EAllStructuralFeatures", func(c ecore.EClass) ecore.EList { return c.GetEAllStructuralFeatures() }, all)
	lst("EAllAttributes", func(c ecore.EClass) ecore.EList { return c.GetEAllAttributes() }, func(c ecore.EClass) []any { return filter(all(c), isAttr) })
	lst("EAttributes", func(c ecore.EClass) ecore.EList { return c.GetEAttributes() }, func(c ecore.EClass) []any { return filter(ownFeatures(c), isAttr) })
	lst("EAllReferences", func(c ecore.EClass) ecore.EList { return c.GetEAllReferences() }, func(c ecore.EClass) []any { return filter(all(c), isRef) })
	lst("EReferences", func(c ecore.EClass) ecore.EList { return c.GetEReferences() }, func(c ecore.EClass) []any { return filter(ownFeatures(c), isRef) })
	lst("EAllContainments", func(c ecore.EClass) ecore.EList { return c.GetEAllContainments() }, func(c ecore.EClass) []any { return filter(all(c), isCont) })
	lst("EAllCrossReferences", func(c ecore.EClass) ecore.EList { return c.GetEAllCrossReferences() }, func(c ecore.EClass) []any { return filter(all(c), cross) })
	lst("EContainmentFeatures", func(c ecore.EClass) ecore.EList { return c.GetEContainmentFeatures() }, func(c ecore.EClass) []any {
		return filter(all(c), func(x any) bool { return isCont(x) && !isDerived(x) })
	})
	lst("ECrossReferenceFeatures", func(c ecore.EClass) ecore.EList { return c.GetECrossReferenceFeatures() }, func(c ecore.EClass) []any {
		return filter(all(c), func(x any) bool { return cross(x) && !isDerived(x) })
	})
	lst("EAllOperations", func(c ecore.EClass) ecore.EList { return c.GetEAllOperations() }, func(c ecore.EClass) []any { return allOf(c, ownOperations) })
	lst("EAllSuperTypes", func(c ecore.EClass) ecore.EList { return c.GetEAllSuperTypes() }, supersOf)
	add("EIDAttribute", func(h *hier, c int) string {
		if a := h.cs[c].GetEIDAttribute(); a != nil {
			return h.name(a)
		}
		return "-"
	}, func(h *hier, c int) []string {
		for _, x := range all(h.cs[c]) {
			if a, ok := x.(ecore.EAttribute); ok && a.IsID() {
				return []string{h.name(a)}
			}
		}
		return []string{"-"}
	})
	add("feature identifiers", func(h *hier, c int) string {
		var b []string
		for _, f := range h.fs {
			b = append(b, fmt.Sprint(h.name(f), "=", h.cs[c].GetFeatureID(f)))
		}
		return strings.Join(b, " ")
	}, func(h *hier, c int) []string {
		var b []string
		a := all(h.cs[c])
		for _, f := range h.fs {
			id := -1
			for i, x := range a {
				if x == any(f) {
					id = i
				}
			}
			b = append(b, fmt.Sprint(h.name(f), "=", id))
		}
		return []string{strings.Join(b, " ")}
	})
	add("features by identifier", func(h *hier, c int) string {
		n := h.cs[c].GetFeatureCount()
		var l []any
		for i := -1; i <= n; i++ {
			if f := h.cs[c].GetEStructuralFeature(i); f != nil {
				l = append(l, f)
			} else {
				l = append(l, nil)
			}
		}
		return h.slice(l)
	}, func(h *hier, c int) []string {
		return []string{h.slice(append(append([]any{nil}, all(h.cs[c])...), nil))}
	})
	add("operation identifiers", func(h *hier, c int) string {
		var b []string
		for _, o := range h.os {
			b = append(b, fmt.Sprint(h.name(o), "=", h.cs[c].GetOperationID(o)))
		}
		for i := -1; i <= h.cs[c].GetOperationCount(); i++ {
			if o := h.cs[c].GetEOperation(i); o != nil {
				b = append(b, h.name(o))
			} else {
				b = append(b, "-")
			}
		}
		return strings.Join(b, " ")
	}, func(h *hier, c int) []string {
		var b []string
		a := allOf(h.cs[c], ownOperations)
		for _, f := range h.os {
			id := -1
			for i, x := range a {
				if x == any(f) {
					id = i
				}
			}
			b = append(b, fmt.Sprint(h.name(f), "=", id))
		}
		b = append(b, "-")
		for _, o := range a {
			b = append(b, h.name(o))
		}
		b = append(b, "-")
		return []string{strings.Join(b, " ")}
	})
	for _, n := range []string{"a0", "a1", "r2", "r3", "x", "none"} {
		n := n
		add("feature named "+n, func(h *hier, c int) string {
			if f := h.cs[c].GetEStructuralFeatureFromName(n); f != nil {
				return h.name(f)
			}
			return "-"
		}, func(h *hier, c int) []string {
			var w []string
			for _, x := range all(h.cs[c]) {
				if x.(ecore.EStructuralFeature).GetName() == n {
					w = append(w, h.name(x))
				}
			}
			if w == nil {
				w = []string{"-"}
			}
			return w
		})
	}
	add("super type tests", func(h *hier, c int) string {
		s := ""
		for _, d := range h.cs {
			s += fmt.Sprint(h.cs[c].IsSuperTypeOf(d), " ")
		}
		return s
	}, func(h *hier, c int) []string {
		s := ""
		for _, d := range h.cs {
			s += fmt.Sprint(isSup(h.cs[c], d), " ")
		}
		return []string{s}
	})
	for i := 0; i < 3; i++ {
		i := i
		add(fmt.Sprintf("override of o%d", i), func(h *hier, c int) string {
			if o := h.cs[c].GetOverride(h.os[i]); o != nil {
				return h.name(o)
			}
			return "-"
		}, func(h *hier, c int) []string {
			var w []string
			a := allOf(h.cs[c], ownOperations)
			in := false
			for _, x := range a {
				if x == any(h.os[i]) {
					in = true
				} else if in && overrides(x.(ecore.EOperation), h.os[i]) {
					w = append(w, h.name(x))
				}
			}
			if w == nil {
				w = []string{"-"}
			}
			return w
		})
	}
	// not of a class: asked once, with the first
	add("reference types", func(h *hier, c int) string {
		if c != 0 {
			return ""
		}
		return h.name(nilable(h.fs[2].(ecore.EReference).GetEReferenceType())) + h.name(nilable(h.fs[3].(ecore.EReference).GetEReferenceType()))
	}, func(h *hier, c int) []string {
		if c != 0 {
			return []string{""}
		}
		t := func(f ecore.EStructuralFeature) string {
			if e := f.GetEType(); e != nil {
				return h.name(e)
			}
			return "-"
		}
		return []string{t(h.fs[2]) + t(h.fs[3])}
	})
	for _, n := range []string{"A", "B", "C", "X"} {
		n := n
		add("classifier named "+n, func(h *hier, c int) string {
			if c != 0 {
				return ""
			}
			return h.name(nilable(h.pkg.GetEClassifier(n)))
		}, func(h *hier, c int) []string {
			if c != 0 {
				return []string{""}
			}
			var w []string
			for it := h.pkg.GetEClassifiers().Iterator(); it.HasNext(); {
				if k := it.Next().(ecore.EClassifier); k.GetName() == n {
					w = append(w, h.name(k))
				}
			}
			if w == nil {
				w = []string{"-"}
			}
			return w
		})
	}
	return rs
}

func nilable(x ecore.EObject) any {
	if x == nil {
		return nil
	}
	return x
}

func overrides(o, p ecore.EOperation) bool {
	oc, pc := o.GetEContainingClass(), p.GetEContainingClass()
	if oc == nil || pc == nil || !isSup(pc, oc) || o.GetName() != p.GetName() || o.GetEParameters().Size() != p.GetEParameters().Size() {
		return false
	}
	for i := 0; i < o.GetEParameters().Size(); i++ {
		if o.GetEParameters().Get(i).(ecore.EParameter).GetEType() != p.GetEParameters().Get(i).(ecore.EParameter).GetEType() {
			return false
		}
	}
	return true
}

func (h *hier) check(rs []hread, reverse bool) (string, string) {
	n := len(rs) * len(h.cs)
	for k := 0; k < n; k++ {
		i := k
		if reverse {
			i = n - 1 - k
		}
		r, c := rs[i%len(rs)], i/len(rs)
		want := r.want(h, c)
		got := r.real(h, c)
		ok := false
		for _, w := range want {
			ok = ok || got == w
		}
		if !ok {
			return r.name, fmt.Sprintf("%s of %s is {%s} instead of {%s}", r.name, h.cs[c].GetName(), got, strings.Join(want, "} or {"))
		}
	}
	return "", ""
}

// state by the primary lists only
func (h *hier) key() string {
	var b strings.Builder
	for c := range h.cs {
		fmt.Fprintf(&b, "%s<%s{%s|%s} ", h.cs[c].GetName(), h.list(h.sup(c)), h.list(h.feats(c)), h.list(h.ops(c)))
	}
	for i, f := range h.fs {
		fmt.Fprintf(&b, "%s:%s", h.name(f), f.GetName())
		if f.IsDerived() {
			b.WriteByte('d')
		}
		if i < 2 {
			if f.(ecore.EAttribute).IsID() {
				b.WriteByte('i')
			}
		} else {
			r := f.(ecore.EReference)
			if r.IsContainment() {
				b.WriteByte('c')
			}
			if r.GetEOpposite() != nil {
				b.WriteByte('o')
			}
			fmt.Fprintf(&b, "%s", h.name(nilable(r.GetEType())))
		}
		b.WriteByte(' ')
	}
	for _, o := range h.os {
		fmt.Fprintf(&b, "%s/%d ", o.GetName(), o.GetEParameters().Size())
	}
	b.WriteString(h.list(h.pkg.GetEClassifiers()))
	return b.String()
}

// initial hierarchies, as edit names
var hierInits = [][]string{
	{"A.features.add(a0)", "B.features.add(r2)", "C.features.add(a1)", "C.features.add(r3)", "A.operations.add(o0)", "C.operations.add(o1)"},
	{"B.supers.add(A)", "C.supers.add(B)", "A.features.add(a0)", "A.features.add(r2)", "B.features.add(a1)", "C.features.add(r3)", "A.operations.add(o0)", "B.operations.add(o2)", "C.operations.add(o1)"},
	{"C.supers.add(A)", "C.supers.add(B)", "A.features.add(a0)", "A.features.add(r2)", "B.features.add(a1)", "B.features.add(r3)", "A.operations.add(o0)", "B.operations.add(o1)", "C.operations.add(o2)"},
	{"B.supers.add(A)", "C.supers.add(A)", "C.supers.add(B)", "A.features.add(a0)", "A.features.add(r2)", "B.features.add(r3)", "C.features.add(a1)", "A.operations.add(o0)", "B.operations.add(o1)", "C.operations.add(o2)", "toggle containment r2", "toggle opposite r3", "toggle id a1"},
	{"C.supers.add(B)", "B.features.add(a0)", "B.features.add(a1)", "B.features.add(r2)", "B.features.add(r3)", "toggle opposite r2", "toggle id a0"},
}

func hierBuild(es []hedit, names []string) *hier {
	h := newHier()
	for _, n := range names {
		done := false
		for _, e := range es {
			if e.name == n {
				e.do(h)
				done = true
			}
		}
		if !done {
			panic("unknown edit " + n)
		}
	}
	return h
}

func hierTwoEdits(init int, pre string) mc.Item {
	return mc.Item{Name: fmt.Sprintf("two-edits/h%d/%s", init, pre), Run: func(c *mc.Ctx) {
		es, rs := hierEdits(), hierReads()
		reads := append([]string{"none", "all"}, make([]string, 0)...)
		for k := 0; k < 3; k++ {
			for _, r := range rs {
				reads = append(reads, fmt.Sprintf("%s of %c", r.name, 'A'+k))
			}
		}
		doRead := func(h *hier, i int) {
			switch {
			case i == 1:
				for k := range h.cs {
					for _, r := range rs {
						r.real(h, k)
					}
				}
			case i > 1:
				rs[(i-2)%len(rs)].real(h, (i-2)/len(rs))
			}
		}
		run := func(e1, rd, e2 int, reverse bool) {
			h := hierBuild(es, hierInits[init])
			if pre == "read" {
				doRead(h, 1)
			}
			if e1 >= 0 {
				if es[e1].ok != nil && !es[e1].ok(h) {
					return
				}
				es[e1].do(h)
			}
			doRead(h, rd)
			if es[e2].ok != nil && !es[e2].ok(h) {
				return
			}
			es[e2].do(h)
			c.Res.Transitions++
			if k, d := h.check(rs, reverse); d != "" {
				n1 := "-"
				if e1 >= 0 {
					n1 = es[e1].name
				}
				c.Failf("two-edits:"+k, "hierarchy [%s]; %s beforehand; %s; read %s; %s; then %s", strings.Join(hierInits[init], "; "), pre, n1, reads[rd], es[e2].name, d)
			}
		}
		seen := map[string]bool{}
		for e1 := -1; e1 < len(es); e1++ {
			for e2 := range es {
				if c.Expired() {
					return
				}
				c.Beat(nil)
				for rd := range reads {
					if e1 < 0 && rd > 1 && pre == "read" {
						continue
					}
					if !c.Thorough() && rd > 1 && e1 >= 0 && (e1+e2+rd)%12 != 0 {
						// quick: the partial reads between two edits are
						// spread over the edit pairs
						continue
					}
					if !c.Thorough() && rd == 1 && pre == "read" && (e1+e2)%2 != 0 {
						continue
					}
					run(e1, rd, e2, false)
					if rd <= 1 {
						run(e1, rd, e2, true)
					}
				}
				if len(seen) < 100000 {
					h := hierBuild(es, hierInits[init])
					ok := e1 < 0 || es[e1].ok == nil || es[e1].ok(h)
					if ok && e1 >= 0 {
						es[e1].do(h)
					}
					if ok && (es[e2].ok == nil || es[e2].ok(h)) {
						es[e2].do(h)
						k := h.key()
						if !seen[k] {
							seen[k] = true
							c.Res.States++
						}
						c.Eval(k)
					}
				}
			}
		}
		c.Res.Traces = c.Res.Transitions
		c.Res.MaxDepth = 2
	}}
}

// hierSys: edit histories with everything read after each edit.
type hierSys struct {
	h    *hier
	es   []hedit
	rs   []hread
	init int
}

func (s *hierSys) Enabled(i int) bool { return s.es[i].ok == nil || s.es[i].ok(s.h) }
func (s *hierSys) Key() string        { return s.h.key() }
func (s *hierSys) Step(i int, check bool) *mc.Viol {
	p := mc.Panics(func() { s.es[i].do(s.h) })
	if p != "" {
		return &mc.Viol{Key: "panic", Msg: s.es[i].name + " panicked: " + p + " at " + mc.LastStack()}
	}
	k, d := s.h.check(s.rs, false)
	if check && d != "" {
		return &mc.Viol{Key: k, Msg: "after " + s.es[i].name + ": " + d}
	}
	return nil
}

func hierHistory(init int) mc.Item {
	return mc.Item{Name: fmt.Sprintf("history/h%d", init), Run: func(c *mc.Ctx) {
		es, rs := hierEdits(), hierReads()
		var names []string
		for _, e := range es {
			names = append(names, e.name)
		}
		mk := func() mc.Machine {
			h := hierBuild(es, hierInits[init])
			h.check(rs, false)
			return &hierSys{h: h, es: es, rs: rs, init: init}
		}
		d := 2
		if c.Thorough() {
			d = 3
		}
		(&mc.Explore{Ops: names, New: mk, MaxDepth: d, Variety: 2, KeyPrefix: "history:"}).Run(c)
		c.Res.Traces = c.Res.Transitions
	}}
}

// proxySupers: the super type is a proxy to a class in another resource.
func proxySupersItem(many int) mc.Item {
	return mc.Item{Name: fmt.Sprintf("proxy-supers/%d", many), Run: func(c *mc.Ctx) {
		rs := hierReads()
		for first := range rs {
			for _, resolvable := range []bool{true, false} {
				h := newHier()
				h.feats(0).Add(h.fs[0])
				h.feats(0).Add(h.fs[2])
				h.feats(1).Add(h.fs[1])
				h.feats(2).Add(h.fs[3])
				set := ecore.NewEResourceSetImpl()
				r1, r2 := ecore.NewEResourceImpl(), ecore.NewEResourceImpl()
				r1.SetURI(ecore.NewURI("http://one"))
				r2.SetURI(ecore.NewURI("http://two"))
				set.GetResources().Add(r1)
				set.GetResources().Add(r2)
				r1.GetContents().Add(h.cs[2])
				p2 := ecore.GetFactory().CreateEPackage()
				p2.SetName("q")
				p2.GetEClassifiers().Add(h.cs[0])
				p2.GetEClassifiers().Add(h.cs[1])
				if resolvable {
					r2.GetContents().Add(p2)
				}
				for k := 0; k < many; k++ {
					px := ecore.GetFactory().CreateEClass()
					px.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(fmt.Sprintf("http://two#//%c", 'A'+k)))
					h.names[px] = fmt.Sprintf("proxy%c", 'A'+k)
					h.sup(2).Add(px)
				}
				c.Res.Transitions++
				c.Res.States++
				c.Eval(fmt.Sprint(first, resolvable, many))
				done := make(chan string, 1)
				go func() {
					var msg string
					p := mc.Panics(func() {
						rs[first].real(h, 2)
						if resolvable {
							_, msg = h.check(rs, false)
						}
					})
					if p != "" {
						msg = "panic " + p
					}
					done <- msg
				}()
				select {
				case msg := <-done:
					if msg != "" {
						c.Failf("proxy-supers", "class C with %d super type proxies (resolvable=%v), reading %s first: %s", many, resolvable, rs[first].name, msg)
					}
				case <-time.After(10 * time.Second):
					c.Failf("proxy-supers:hang", "class C with %d super type proxies (resolvable=%v): reading %s never returns", many, resolvable, rs[first].name)
					return
				}
			}
		}
	}}
}

// defaultsItem: default values follow type and literal.
func defaultsItem() mc.Item {
	return mc.Item{Name: "defaults", Run: func(c *mc.Ctx) {
		types := []string{"int", "string", "bool", "float64"}
		lits := []string{"", "1", "true", "x"}
		type ed struct {
			name string
			do   func(a ecore.EAttribute)
		}
		var eds []ed
		for _, t := range types {
			t := t
			eds = append(eds, ed{"type=" + t, func(a ecore.EAttribute) { a.SetEType(dataType(t)) }})
		}
		eds = append(eds, ed{"type=nil", func(a ecore.EAttribute) { a.SetEType(nil) }})
		for _, l := range lits {
			l := l
			eds = append(eds, ed{"literal=" + l, func(a ecore.EAttribute) { a.SetDefaultValueLiteral(l) }})
		}
		for _, u := range []int{1, -1} {
			u := u
			eds = append(eds, ed{fmt.Sprint("upper=", u), func(a ecore.EAttribute) { a.SetUpperBound(u) }})
		}
		eds = append(eds, ed{"read", func(a ecore.EAttribute) { mc.Panics(func() { a.GetDefaultValue() }) }})
		n := len(eds)
		get := func(a ecore.EAttribute) (s string) {
			if p := mc.Panics(func() { s = fmt.Sprintf("%T:%v", a.GetDefaultValue(), a.GetDefaultValue()) }); p != "" {
				return "panic"
			}
			return
		}
		for x := 0; x < n*n*n*n; x++ {
			a := ecore.GetFactory().CreateEAttribute()
			var tr []string
			for k, y := 0, x; k < 4; k, y = k+1, y/n {
				eds[y%n].do(a)
				tr = append(tr, eds[y%n].name)
			}
			b := ecore.GetFactory().CreateEAttribute()
			b.SetEType(a.GetEType())
			b.SetUpperBound(a.GetUpperBound())
			b.SetDefaultValueLiteral(a.GetDefaultValueLiteral())
			c.Res.Transitions++
			w, g := get(b), get(a)
			c.Eval(w)
			if w != g {
				c.Failf("defaults", "after %s the default value is %s, a feature with the same type, bound and literal has %s", strings.Join(tr, "; "), g, w)
			}
		}
		c.Res.States, c.Res.Traces = int64(n*n*n*n), int64(n*n*n*n)
	}}
}

func c08Items(tier string) []mc.Item {
	var items []mc.Item
	items = append(items, proxySupersItem(1), proxySupersItem(2), defaultsItem())
	for i := range hierInits {
		items = append(items, hierHistory(i))
	}
	for i := range hierInits {
		items = append(items, hierTwoEdits(i, "read"), hierTwoEdits(i, "none"))
	}
	return items
}
