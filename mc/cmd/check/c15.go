package main

import (
	"fmt"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C15: copies and structural equality against plain data.

func init() {
	register(&mc.Check{ID: "C15", Level: "model_checking",
		Rule:        "copy/: every model of each family (all trees, all assignments of cross references of each kind, all attribute values and lists, maps, proxies, within the bound), for every object of it and for all roots at once, copied; the copy is written as text and compared with what the plain description of the model gives, no object is shared, emptying either side leaves the other one unchanged, and Equals answers as the structural equality of the descriptions does. equal/: Equals and EqualsAll on all pairs of models of a family.",
		Assumptions: []string{"values of attributes (byte slices, times) are values that nobody modifies in place", "references with an opposite to an object that is not copied are left out of the copy: keeping them would take the object away from the original", "objects with such references are therefore not equal to their copy; containers are not compared"},
		Items:       c15Items})
}

// copySpec is the description of the copy of the trees below the given nodes.
func copySpec(s *mspec, from []int) (*mspec, []int) {
	order, num := s.order(from, textOpts{transient: true})
	r := &mspec{m: s.m}
	r.nodes = append(r.nodes, s.nodes...)
	base := len(s.nodes)
	for _, n := range order {
		o := s.nodes[n]
		c := &mnode{class: o.class, attrs: o.attrs, refs: map[string][]int{}}
		for name, l := range o.refs {
			f := s.fspecOf(n, name)
			for _, x := range l {
				if k, ok := num[x]; ok {
					c.refs[name] = append(c.refs[name], base+k)
				} else if x < 0 || f.GetEOpposite() == nil {
					c.refs[name] = append(c.refs[name], x)
				}
			}
		}
		r.nodes = append(r.nodes, c)
	}
	var roots []int
	for _, n := range from {
		roots = append(roots, base+num[n])
	}
	return r, roots
}

// specEqual: structural equality of two nodes of descriptions. Nodes are
// pairs (side, number) so that two descriptions can be compared; same tells
// whether the two sides are one description.
func specEqual(s1 *mspec, a int, s2 *mspec, b int, fwd, back map[int]int) bool {
	if x, ok := fwd[a]; ok {
		return x == b
	}
	if _, ok := back[b]; ok {
		return false
	}
	if a < 0 || b < 0 { // proxies: equal URIs
		return a == b
	}
	fwd[a], back[b] = b, a
	if s1 == s2 && a == b {
		return true
	}
	n1, n2 := s1.nodes[a], s2.nodes[b]
	if n1.class != n2.class {
		return false
	}
	for it := s1.m.classes[n1.class].GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		name := f.GetName()
		if r, ok := f.(ecore.EReference); ok {
			if r.IsContainer() {
				continue
			}
			l1, l2 := n1.refs[name], n2.refs[name]
			if len(l1) != len(l2) {
				return false
			}
			for i := range l1 {
				if l1[i] < 0 || l2[i] < 0 {
					if l1[i] != l2[i] {
						return false
					}
					continue
				}
				if !specEqual(s1, l1[i], s2, l2[i], fwd, back) {
					return false
				}
			}
			continue
		}
		v1, ok1 := n1.attrs[name]
		v2, ok2 := n2.attrs[name]
		if l, ok := v1.([]any); ok && len(l) == 0 {
			ok1 = false
		}
		if l, ok := v2.([]any); ok && len(l) == 0 {
			ok2 = false
		}
		if ok1 != ok2 || ok1 && showVal(v1) != showVal(v2) {
			return false
		}
	}
	return true
}

// emptyAll unsets every feature below an object.
func emptyAll(o ecore.EObject) {
	var all []ecore.EObject
	var walk func(o ecore.EObject)
	walk = func(o ecore.EObject) {
		all = append(all, o)
		for it := o.EContents().Iterator(); it.HasNext(); {
			if c, _ := it.Next().(ecore.EObject); c != nil {
				walk(c)
			}
		}
	}
	walk(o)
	for _, x := range all {
		for it := x.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			if f.IsMany() {
				x.EGet(f).(ecore.EList).Clear()
			} else {
				x.EUnset(f)
			}
		}
	}
}

// modelRoots gives the nodes that nothing contains.
func modelRoots(s *mspec) []int {
	in := map[int]bool{}
	for i, n := range s.nodes {
		for name, l := range n.refs {
			if s.fspecOf(i, name).IsContainment() {
				for _, x := range l {
					in[x] = true
				}
			}
		}
	}
	var r []int
	for i := range s.nodes {
		if !in[i] {
			r = append(r, i)
		}
	}
	return r
}

func pickObjs(objs []ecore.EObject, ns []int) []ecore.EObject {
	var r []ecore.EObject
	for _, n := range ns {
		r = append(r, objs[n])
	}
	return r
}

func extOf(objs []ecore.EObject) map[ecore.EObject]int {
	m := map[ecore.EObject]int{}
	for i, o := range objs {
		m[o] = i
	}
	return m
}

func c15Copy(c *mc.Ctx, s *mspec, kind string, from []int, all bool) (key, msg string) {
	mk := func(class string) ecore.EObject {
		cl := s.m.classes[class]
		if ecore.IsMapEntry(cl) || kind == kDynamic {
			return cl.GetEPackage().GetEFactoryInstance().Create(cl)
		}
		return newObj(kind, cl, nil)
	}
	opts := textOpts{transient: true}
	objs := s.build(mk)
	roots := modelRoots(s)
	before := textOf(pickObjs(objs, roots), nil, opts)
	if want := s.text(roots, opts); want != before {
		return "build", "the model as built is not as described: " + diffText(want, before)
	}
	var copies []ecore.EObject
	if all {
		l := ecore.CopyAll(ecore.NewImmutableEList(toAnys(pickObjs(objs, from))))
		if l.Size() != len(from) {
			return "copyall-size", fmt.Sprintf("CopyAll of %d objects gives %d", len(from), l.Size())
		}
		for _, x := range l.ToArray() {
			copies = append(copies, x.(ecore.EObject))
		}
	} else {
		copies = []ecore.EObject{ecore.Copy(objs[from[0]])}
	}
	cs, croots := copySpec(s, from)
	want := cs.text(croots, opts)
	ext := extOf(objs)
	got := textOf(copies, ext, opts)
	if got != want {
		return "copy", "the copy is not as expected: " + diffText(want, got)
	}
	for i, x := range copies {
		if x.EContainer() != nil && all == false {
			return "container", fmt.Sprintf("copy %d has a container", i)
		}
	}
	shared := ""
	var walk func(x ecore.EObject)
	walk = func(x ecore.EObject) {
		if n, ok := ext[x]; ok {
			shared = fmt.Sprintf("n%d", n)
			return
		}
		for _, k := range x.EContents().ToArray() {
			walk(k.(ecore.EObject))
		}
	}
	for _, x := range copies {
		walk(x)
	}
	if shared != "" {
		return "shared", "the copy contains the original object " + shared
	}
	after := textOf(pickObjs(objs, roots), nil, opts)
	if after != before {
		return "original-changed", "copying changed the original: " + diffText(before, after)
	}
	// equality of the copy
	for i := range from {
		wantEq := specEqual(cs, from[i], cs, croots[i], map[int]int{}, map[int]int{})
		if e := ecore.Equals(objs[from[i]], copies[i]); e != wantEq {
			return "equals-copy", fmt.Sprintf("Equals(n%d, its copy) is %v, expected %v", from[i], e, wantEq)
		}
		if e := ecore.Equals(copies[i], objs[from[i]]); e != wantEq {
			return "equals-copy", fmt.Sprintf("Equals(copy of n%d, n%d) is %v, expected %v", from[i], from[i], e, wantEq)
		}
	}
	// independence
	for _, x := range copies {
		emptyAll(x)
	}
	if after := textOf(pickObjs(objs, roots), nil, opts); after != before {
		return "independence", "emptying the copy changed the original: " + diffText(before, after)
	}
	var copy2 []ecore.EObject
	if all {
		for _, x := range ecore.CopyAll(ecore.NewImmutableEList(toAnys(pickObjs(objs, from)))).ToArray() {
			copy2 = append(copy2, x.(ecore.EObject))
		}
	} else {
		copy2 = []ecore.EObject{ecore.Copy(objs[from[0]])}
	}
	for _, n := range from {
		emptyAll(objs[n])
	}
	if got := textOf(copy2, ext, opts); got != want {
		return "independence", "emptying the original changed the copy: " + diffText(want, got)
	}
	return "", ""
}

func toAnys(l []ecore.EObject) []any {
	r := []any{}
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

func c15Items(tier string) []mc.Item {
	thorough := tier == "thorough"
	m := modelMM("http://models")
	var items []mc.Item
	for _, fam := range modelFamilies() {
		for _, kind := range []string{kDynamic, kReflect, kBasic, kCompact, kCompactC, kStore} {
			d := 2
			if kind == kDynamic && !strings.HasPrefix(fam.name, "attr/") {
				d = 3
			}
			if kind != kDynamic && strings.HasPrefix(fam.name, "tree/") {
				d = 1
			}
			if strings.HasPrefix(fam.name, "tree/") && kind == kDynamic {
				d = 2
			}
			if thorough {
				d++
			}
			items = append(items, mc.Item{Name: "copy/" + fam.name + "/" + kind, Run: func(c *mc.Ctx) {
				seen := map[string]bool{}
				enumerate(func(ch *chooser) bool {
					if c.Expired() {
						return false
					}
					s := newSpec(m)
					fam.gen(s, ch, d)
					k := s.text(modelRoots(s), textOpts{transient: true})
					if seen[k] {
						return true
					}
					seen[k] = true
					c.Res.States++
					try := func(from []int, all bool) bool {
						desc := func() string { return fmt.Sprintf("copy of %v (all %v) of %s", from, all, s) }
						c.Beat(desc)
						var key, msg string
						if p := mc.Panics(func() { key, msg = c15Copy(c, s, kind, from, all) }); p != "" {
							key, msg = "panic", p
						}
						c.Res.Transitions++
						if key != "" {
							return c.Failf(key+":"+fam.name, "%s: %s", desc(), msg)
						}
						c.Eval(s.text(s.roots, textOpts{transient: true}))
						return true
					}
					c.Sample(s.String())
					for i := range s.nodes {
						if !try([]int{i}, false) {
							return false
						}
					}
					if !try(s.roots, true) {
						return false
					}
					return true
				})
			}})
		}
	}
	for _, fam := range modelFamilies() {
		d := 2
		switch {
		case strings.HasPrefix(fam.name, "tree/one"), strings.HasPrefix(fam.name, "attr/lists"), strings.HasPrefix(fam.name, "map/ref"):
			d = 1
		case strings.HasPrefix(fam.name, "tree/two"):
			d = 1
		case strings.HasPrefix(fam.name, "refs2"):
			d = 2
		}
		if thorough && !strings.HasPrefix(fam.name, "tree/") {
			d++
		}
		items = append(items, mc.Item{Name: "equal/" + fam.name, Run: func(c *mc.Ctx) {
			type built struct {
				s    *mspec
				objs []ecore.EObject
			}
			var ms []built
			seen := map[string]bool{}
			enumerate(func(ch *chooser) bool {
				s := newSpec(m)
				fam.gen(s, ch, d)
				k := s.String()
				if seen[k] {
					return true
				}
				seen[k] = true
				ms = append(ms, built{s, nil})
				return true
			})
			limit := 400
			if thorough {
				limit = 3000
			}
			c.Extra("models", int64(len(ms)))
			if len(ms) > limit {
				c.Extra("models-cut", int64(len(ms)-limit))
				ms = ms[:limit]
			}
			for i := range ms {
				ms[i].objs = ms[i].s.dynamic()
			}
			for i := range ms {
				if c.Expired() {
					return
				}
				for j := range ms {
					a, b := ms[i], ms[j]
					if i == j {
						b.objs = b.s.dynamic()
					}
					s2 := *b.s // another description, even when it is the same
					desc := func() string { return fmt.Sprintf("%s\nand %s", a.s, b.s) }
					c.Beat(desc)
					c.Res.Transitions++
					r1, r2 := a.s.roots, b.s.roots
					want := specEqual(a.s, r1[0], &s2, r2[0], map[int]int{}, map[int]int{})
					fwd, back := map[int]int{}, map[int]int{}
					wantAll := len(r1) == len(r2)
					for k := 0; wantAll && k < len(r1); k++ {
						wantAll = specEqual(a.s, r1[k], &s2, r2[k], fwd, back)
					}
					var got, gotAll bool
					if p := mc.Panics(func() {
						got = ecore.Equals(a.objs[r1[0]], b.objs[r2[0]])
						gotAll = ecore.EqualsAll(ecore.NewImmutableEList(toAnys(pickObjs(a.objs, r1))), ecore.NewImmutableEList(toAnys(pickObjs(b.objs, r2))))
					}); p != "" {
						if !c.Failf("panic:"+fam.name, "%s: %s", desc(), p) {
							return
						}
						continue
					}
					c.Eval(fmt.Sprint(want, wantAll, i == j))
					if got != want {
						if !c.Failf("equals:"+fam.name, "Equals of the first roots is %v, expected %v: %s", got, want, desc()) {
							return
						}
					}
					if gotAll != wantAll {
						if !c.Failf("equalsall:"+fam.name, "EqualsAll of the roots is %v, expected %v: %s", gotAll, wantAll, desc()) {
							return
						}
					}
				}
			}
			c.Res.States = int64(len(ms))
		}})
	}
	return items
}
