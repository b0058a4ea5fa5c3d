package main

import (
	"fmt"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// sqlStoreObj is an object kept in the SQL store, with or without a cache.
type sqlStoreObj struct {
	ecore.EStoreEObjectImpl
	id int64
}

func (o *sqlStoreObj) SetSQLID(id int64) { o.id = id }
func (o *sqlStoreObj) GetSQLID() int64   { return o.id }

func newSQLStoreObj(c ecore.EClass, cache bool) *sqlStoreObj {
	o := new(sqlStoreObj)
	o.SetInterfaces(o)
	o.Initialize()
	o.SetEClass(c)
	o.SetCache(cache)
	return o
}

// dump tells everything about an object and its contents.
func storeDump(m *mm, o ecore.EObject, container ecore.EObject) string {
	var b strings.Builder
	key := func(v any) string {
		if x, _ := v.(ecore.EObject); x != nil {
			return fmt.Sprint("->", x.EGet(m.f("N.k")))
		}
		return fmt.Sprint(v)
	}
	fmt.Fprintf(&b, "%v{", o.EGet(m.f("N.k")))
	if c := o.EContainer(); c != container {
		fmt.Fprintf(&b, "container %s ", key(c))
	}
	for _, n := range []string{"s", "id", "r", "c"} {
		f := m.f("N." + n)
		if v := o.EGet(f); v != nil || o.EIsSet(f) {
			fmt.Fprintf(&b, "%s=%s(%v) ", n, key(v), o.EIsSet(f))
		}
	}
	for _, n := range []string{"ss", "rs", "cs"} {
		f := m.f("N." + n)
		l := o.EGet(f).(ecore.EList)
		if l.Empty() && l.Size() == 0 && !o.EIsSet(f) {
			continue
		}
		fmt.Fprintf(&b, "%s=%d,%v,%v[", n, l.Size(), l.Empty(), o.EIsSet(f))
		i := 0
		for v := range l.All() {
			fmt.Fprintf(&b, "%s ", key(v))
			if g := l.Get(i); g != v {
				fmt.Fprintf(&b, "(get %s) ", key(g))
			}
			if n != "ss" && l.IndexOf(v) != i {
				fmt.Fprintf(&b, "(index %d) ", l.IndexOf(v))
			}
			i++
		}
		b.WriteString("] ")
	}
	for v := range o.EContents().All() {
		b.WriteString(storeDump(m, v.(ecore.EObject), o))
	}
	b.WriteString("}")
	return b.String()
}

type objOp struct {
	name string
	ref  bool
	ok   func(o []ecore.EObject) bool
	run  func(o []ecore.EObject) any
}

func storeObjOps(m *mm) (ops []objOp) {
	f := func(n string) ecore.EStructuralFeature { return m.f("N." + n) }
	list := func(o ecore.EObject, n string) ecore.EList { return o.EGet(f(n)).(ecore.EList) }
	always := func(o []ecore.EObject) bool { return true }
	add := func(name string, ok func(o []ecore.EObject) bool, run func(o []ecore.EObject) any) {
		ops = append(ops, objOp{name, strings.Contains(name, ".r=") && !strings.HasSuffix(name, "nil") || strings.Contains(name, "rs.Add"), ok, run})
	}
	in := func(o []ecore.EObject, x int) bool { return o[x] == o[0] || ecore.IsAncestor(o[0], o[x]) }
	free := func(o []ecore.EObject, x, y int) bool { return x != y && !ecore.IsAncestor(o[y], o[x]) }
	name := "rab"
	set := func(x int, n string, v any) {
		add(fmt.Sprintf("%c.%s=%v", name[x], n, v), always, func(o []ecore.EObject) any { o[x].ESet(f(n), v); return nil })
	}
	unset := func(x int, n string) {
		add(fmt.Sprintf("%c.unset(%s)", name[x], n), always, func(o []ecore.EObject) any { o[x].EUnset(f(n)); return nil })
	}
	set(0, "s", "v")
	set(1, "s", "w")
	set(0, "s", "")
	set(0, "id", 3)
	set(0, "id", 7)
	for _, n := range []string{"s", "id", "c", "cs", "ss"} {
		unset(0, n)
	}
	for _, x := range []int{0, 1} {
		for i, v := range []any{"p", "q"} {
			add(fmt.Sprintf("%c.ss.Insert(%d,%v)", name[x], i, v), func(o []ecore.EObject) bool { return list(o[x], "ss").Size() >= i }, func(o []ecore.EObject) any { list(o[x], "ss").Insert(i, v); return nil })
		}
		add(fmt.Sprintf("%c.ss.AddAll(p,q)", name[x]), always, func(o []ecore.EObject) any {
			l := ecore.NewBasicEList([]any{"p", "q"})
			r := list(o[x], "ss").AddAll(l)
			l.Clear()
			return r
		})
	}
	add("r.ss.RemoveAt(0)", func(o []ecore.EObject) bool { return !list(o[0], "ss").Empty() }, func(o []ecore.EObject) any { return list(o[0], "ss").RemoveAt(0) })
	add("r.ss.Remove(p)", always, func(o []ecore.EObject) any { return list(o[0], "ss").Remove("p") })
	add("r.ss.Set(0,q)", func(o []ecore.EObject) bool { return !list(o[0], "ss").Empty() }, func(o []ecore.EObject) any { return list(o[0], "ss").Set(0, "q") })
	add("r.ss.Move(1,0)", func(o []ecore.EObject) bool { return list(o[0], "ss").Size() > 1 }, func(o []ecore.EObject) any { return list(o[0], "ss").Move(1, 0) })
	add("r.ss.Clear()", always, func(o []ecore.EObject) any { list(o[0], "ss").Clear(); return nil })
	for _, xy := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
		x, y := xy[0], xy[1]
		add(fmt.Sprintf("%c.c=%c", name[x], name[y]), func(o []ecore.EObject) bool { return free(o, x, y) }, func(o []ecore.EObject) any { o[x].ESet(f("c"), o[y]); return nil })
		add(fmt.Sprintf("%c.cs.Add(%c)", name[x], name[y]), func(o []ecore.EObject) bool { return free(o, x, y) }, func(o []ecore.EObject) any { return list(o[x], "cs").Add(o[y]) })
		if x == 0 {
			add(fmt.Sprintf("%c.cs.Insert(0,%c)", name[x], name[y]), func(o []ecore.EObject) bool { return free(o, x, y) && !list(o[x], "cs").Contains(o[y]) }, func(o []ecore.EObject) any { list(o[x], "cs").Insert(0, o[y]); return nil })
			add(fmt.Sprintf("%c.cs.Remove(%c)", name[x], name[y]), always, func(o []ecore.EObject) any { return list(o[x], "cs").Remove(o[y]) })
			add(fmt.Sprintf("%c.r=%c", name[x], name[y]), func(o []ecore.EObject) bool { return in(o, y) }, func(o []ecore.EObject) any { o[x].ESet(f("r"), o[y]); return nil })
			// (rs is not unique, which lists of references in memory do not know)
			add(fmt.Sprintf("%c.rs.Add(%c)", name[x], name[y]), func(o []ecore.EObject) bool { return in(o, y) && !list(o[x], "rs").Contains(o[y]) }, func(o []ecore.EObject) any { return list(o[x], "rs").Add(o[y]) })
		} else {
			add(fmt.Sprintf("%c.r=%c", name[x], name[0]), func(o []ecore.EObject) bool { return in(o, x) }, func(o []ecore.EObject) any { o[x].ESet(f("r"), o[0]); return nil })
		}
	}
	add("r.c=nil", always, func(o []ecore.EObject) any { o[0].ESet(f("c"), nil); return nil })
	add("r.r=nil", always, func(o []ecore.EObject) any { o[0].ESet(f("r"), nil); return nil })
	add("r.cs.Clear()", always, func(o []ecore.EObject) any { list(o[0], "cs").Clear(); return nil })
	add("r.cs.Move(1,0)", func(o []ecore.EObject) bool { return list(o[0], "cs").Size() > 1 }, func(o []ecore.EObject) any { return list(o[0], "cs").Move(1, 0) })
	add("r.rs.Clear()", always, func(o []ecore.EObject) any { list(o[0], "rs").Clear(); return nil })
	return
}

// storeObjects runs every history of changes of three objects, one of them a root
// of the store at some point, next to the same changes of objects in memory.
func storeObjects(c *mc.Ctx, form string, cache bool, depth, first int, attachAt int) {
	w := newSQLWorld(form)
	defer func() { w.done() }()
	mk := func(cl ecore.EClass) ecore.EObject { return newSQLStoreObj(cl, cache) }
	w.m.pkg.SetEFactoryInstance(newSQLFactory(mk))
	key := fmt.Sprintf("objects/cache-%v", cache)
	var expected []string // dumps of the roots of the database
	var hists []string
	stop := false
	fail := func(hist, bad string) {
		if !c.Failf(key, "%s, cache %v, %s: %s", form, cache, hist, bad) {
			stop = true
		}
	}
	reopen := func() {
		if stop || len(hists) == 0 {
			return
		}
		if bad := w.wait(); bad != "" {
			fail("", bad)
			return
		}
		if err := w.st.Close(); err != nil {
			fail("", "closing the store: "+err.Error())
			return
		}
		w.open()
		roots := w.st.GetRoots()
		if len(roots) != len(hists) {
			fail("", fmt.Sprintf("opened again, the store has %d roots, expected %d (%s)", len(roots), len(hists), w.errs.take()))
		} else {
			for i, r := range roots {
				if got := storeDump(w.m, r, nil); got != expected[i] && !stop {
					fail(hists[i], fmt.Sprintf("opened again, the root is %s, expected %s", got, expected[i]))
				}
			}
		}
		if e := w.errs.take(); e != "" && !stop {
			fail("", "opened again: "+e)
		}
		w.done()
		w = newSQLWorld(form)
		w.m.pkg.SetEFactoryInstance(newSQLFactory(mk))
		expected, hists = nil, nil
	}
	n := len(storeObjOps(w.m))
	var rec func(h []int)
	rec = func(h []int) {
		if stop || c.Expired() {
			return
		}
		al := storeObjOps(w.m)
		var sq, me []ecore.EObject
		for _, k := range []string{"r", "a", "b"} {
			o := mk(w.m.c("N"))
			o.ESet(w.m.f("N.k"), k)
			sq = append(sq, o)
			d := newObj(kDynamic, w.m.c("N"), nil)
			d.ESet(w.m.f("N.k"), k)
			me = append(me, d)
		}
		names := []string{}
		ok, bad, attached := true, "", false
		norm := func(v any) string {
			for i := range sq {
				if v == any(sq[i]) || v == any(me[i]) {
					return "object " + string("rab"[i])
				}
			}
			return tell(v)
		}
		attach := func() {
			w.st.AddRoot(sq[0])
			attached = true
			names = append(names, "AddRoot(r)")
		}
		for i, x := range h {
			if i == attachAt {
				attach()
			}
			if ok = al[x].ok(me) && (!al[x].ref || attached); !ok {
				break
			}
			if al[x].ref {
				// an object without resource may only be referenced when it has an identifier in the store,
				// which objects get asynchronously
				if bad = w.wait(); bad != "" {
					break
				}
			}
			names = append(names, al[x].name)
			c.Beat(func() string { return form + " " + strings.Join(names, " ") })
			var got, want any
			if p := mc.Panics(func() { want = al[x].run(me) }); p != "" {
				bad = "in memory: " + p
			} else if p := mc.Panics(func() { got = al[x].run(sq) }); p != "" {
				bad = al[x].name + ": " + p
			} else if norm(got) != norm(want) {
				bad = fmt.Sprintf("%s returns %s, expected %s", al[x].name, norm(got), norm(want))
			}
			c.Res.Transitions++
			if bad != "" {
				break
			}
		}
		if ok && !attached {
			attach()
		}
		hist := strings.Join(names, " ")
		if ok && len(h) > 0 {
			var got, want string
			look := func() string {
				if p := mc.Panics(func() {
					got, want = "", ""
					for i := range sq {
						got += storeDump(w.m, sq[i], sq[i].EContainer())
						want += storeDump(w.m, me[i], me[i].EContainer())
					}
				}); p != "" {
					return p
				}
				if got != want {
					return fmt.Sprintf("objects %s, expected %s", got, want)
				}
				return ""
			}
			if bad == "" {
				bad = look()
			}
			if bad == "" {
				if bad = w.wait(); bad == "" {
					if bad = look(); bad != "" {
						bad = "after the operations have ended: " + bad
					}
				}
			}
			if e := w.errs.take(); e != "" {
				bad = strings.TrimPrefix(bad+", error: "+e, ", ")
			}
			c.Res.States++
			c.Res.Traces++
			c.Eval(hist)
			if c.Res.MaxDepth < len(h) {
				c.Res.MaxDepth = len(h)
			}
			if bad != "" {
				fail(hist, bad)
				if stop {
					return
				}
			}
		}
		if attached {
			hists = append(hists, hist)
			expected = append(expected, storeDump(w.m, me[0], nil))
		}
		if len(hists) >= 100 {
			reopen()
		}
		if ok && bad == "" && len(h) < depth {
			for i := range n {
				if len(h) > 0 || i%8 == first {
					rec(append(append([]int{}, h...), i))
				}
			}
		}
	}
	rec(nil)
	reopen()
}
