package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C22: resources and resource sets.

func init() {
	register(&mc.Check{ID: "C22", Level: "model_checking",
		Rule:        "histories of creating, adding, removing, moving, renaming, loading, unloading, saving and looking up resources, of adding and removing their objects, of resolving proxies into other documents and of changing the URI mappings, over documents kept in memory (good, referring to another, malformed, missing). A plain model of which resource is where, its URI, loaded state and contents predicts everything after each step: the resources of each set, their sets, loaded states, contents, errors, the resource and the objects found at every URI, which resource each object ever seen is in, what listeners and adapters were told, and how often documents were read. files/: every file name over an alphabet of special characters saved and loaded through the real file system below a scratch directory.",
		Assumptions: []string{"a missing document is looked for again at the next lookup with loading", "emptying a resource makes it unloaded, adding to it loaded", "among several resources of the same URI, the first one is found (any one with a URI-resource map)"},
		Items:       c22Items})
}

type robj struct {
	real ecore.EObject
	name string
	kid  *robj
	// reference: the URI of a proxy, or what it was resolved to
	proxy string
	to    *robj
}

type rres struct {
	real    ecore.EResource
	set     int
	uri     string
	loaded  bool
	errs    bool
	roots   []*robj
	told    map[ecore.EObject]int
	events  *resEvents
	listens bool
	spoilt  bool // just loaded from a malformed document
}

type resListener struct{ told map[ecore.EObject]int }

func (l *resListener) Attached(o ecore.EObject) { l.told[o]++ }
func (l *resListener) Detached(o ecore.EObject) { l.told[o]-- }

type resEvents struct {
	ecore.AbstractEAdapter
	loaded any
	set    any
	uri    any
	bad    string
}

func (a *resEvents) NotifyChanged(n ecore.ENotification) {
	switch n.GetFeatureID() {
	case ecore.RESOURCE__IS_LOADED:
		if n.GetOldValue() != a.loaded {
			a.bad = fmt.Sprintf("told of loaded %v -> %v, but it was %v", n.GetOldValue(), n.GetNewValue(), a.loaded)
		}
		a.loaded = n.GetNewValue()
	case ecore.RESOURCE__RESOURCE_SET:
		a.set = n.GetNewValue()
	case ecore.RESOURCE__URI:
		a.uri = n.GetNewValue()
	}
}

type rop struct {
	name    string
	enabled func(w *rworld) bool
	run     func(w *rworld) string
}

type rconf struct {
	ext      string
	sets     int
	max      int // resources
	uris     []string
	cache    bool
	ids      bool
	listen   bool
	listensX bool // object listeners
	docs     map[string]string
	ops      string // kinds of operations
}

type rworld struct {
	conf    *rconf
	m       *mm
	docs    *docConverter
	sets    []*ecore.EResourceSetImpl
	res     []*rres
	objs    []*robj // all ever seen
	orders  [][]*rres
	users   []*robj
	mapped  bool
	content map[string][]string // what documents hold: names of roots
	reads   map[string]int
	ops     []rop
}

const rMapFrom, rMapTo = "http://h/", ""

func (w *rworld) norm(u string) string {
	if w.mapped && strings.HasPrefix(u, rMapFrom) {
		return rMapTo + u[len(rMapFrom):]
	}
	return u
}

// the documents: a root each (b refers to the kid of a)
func c22Docs(m *mm, ext string) map[string][]byte {
	docs := newDocConverter()
	set := docSet(m, docs, docForm{})
	mk := func(class, name string) ecore.EObject {
		o := m.classes[class].GetEPackage().GetEFactoryInstance().Create(m.classes[class])
		o.ESet(m.feature(class, "bname"), name)
		return o
	}
	a, ak, b := mk("Node", "a"), mk("Node", "ak"), mk("Node", "b")
	a.ESet(m.feature("Node", "kid"), ak)
	ra, rb := set.CreateResource(ecore.NewURI("a."+ext)), set.CreateResource(ecore.NewURI("b."+ext))
	ra.GetContents().Add(a)
	rb.GetContents().Add(b)
	b.ESet(m.feature("Node", "ref"), ak)
	ra.Save()
	rb.Save()
	if p := problems(ra) + problems(rb); p != "" {
		panic(p)
	}
	docs.docs["bad."+ext] = docs.docs["a."+ext][:len(docs.docs["a."+ext])/2]
	return docs.docs
}

func newRWorld(conf *rconf, m *mm, docs map[string][]byte) *rworld {
	w := &rworld{conf: conf, m: m, docs: newDocConverter(), content: map[string][]string{}, reads: map[string]int{}}
	for k, d := range docs {
		w.docs.docs[k] = d
		w.content[k] = []string{strings.TrimSuffix(k, "."+conf.ext)}
	}
	w.orders = make([][]*rres, conf.sets)
	for range conf.sets {
		s := docSet(m, w.docs, docForm{})
		if conf.cache {
			s.SetURIResourceMap(map[*ecore.URI]ecore.EResource{})
		}
		w.sets = append(w.sets, s)
	}
	for i := range 2 {
		o := m.classes["Node"].GetEPackage().GetEFactoryInstance().Create(m.classes["Node"])
		name := fmt.Sprintf("x%d", i)
		o.ESet(m.feature("Node", "bname"), name)
		x := &robj{real: o, name: name}
		w.users = append(w.users, x)
		w.objs = append(w.objs, x)
	}
	return w
}

func (w *rworld) track(r ecore.EResource, set int, uri string) *rres {
	x := &rres{real: r, set: set, uri: uri, told: map[ecore.EObject]int{}}
	x.events = &resEvents{loaded: r.IsLoaded()}
	if r.GetResourceSet() != nil {
		x.events.set = r.GetResourceSet()
	}
	x.events.uri = r.GetURI()
	w.res = append(w.res, x)
	w.orders[set] = append(w.orders[set], x)
	return x
}

func (w *rworld) listen(x *rres) {
	x.listens = true
	x.real.GetResourceListeners().Add(&resListener{x.told})
	x.real.EAdapters().Add(x.events)
}

// order gives the resources of a set.
func (w *rworld) order(s int) []*rres {
	if s < 0 {
		return nil
	}
	return w.orders[s]
}

// move puts a resource at the end of another set, or in none.
func (w *rworld) move(x *rres, s int) {
	if x.set >= 0 {
		var l []*rres
		for _, y := range w.orders[x.set] {
			if y != x {
				l = append(l, y)
			}
		}
		w.orders[x.set] = l
	}
	if x.set = s; s >= 0 {
		w.orders[s] = append(w.orders[s], x)
	}
}

// load is what a load does.
func (w *rworld) load(x *rres) {
	if x.loaded {
		return
	}
	doc := w.norm(x.uri)
	if x.set < 0 {
		doc = "" // no converter
	}
	names, ok := w.content[doc]
	if !ok {
		x.errs = true
		return
	}
	w.reads[doc]++
	x.loaded = true
	x.errs = false
	x.roots = nil
	for _, n := range names {
		o := &robj{name: n}
		switch n {
		case "bad":
			x.errs, x.spoilt = true, true
			continue
		case "a":
			o.kid = &robj{name: "ak"}
		case "b":
			o.proxy = x.uri[:strings.LastIndexByte(x.uri, '/')+1] + "a." + w.conf.ext
		}
		x.roots = append(x.roots, o)
	}
}

// adopt finds the real objects of model objects that a load has just made.
func (w *rworld) adopt() string {
	for _, x := range w.res {
		l := x.real.GetContents()
		if x.spoilt {
			x.spoilt = false
			x.roots = x.roots[:0:0]
			for i := range l.Size() { // whatever could be read
				x.roots = append(x.roots, &robj{real: l.Get(i).(ecore.EObject)})
			}
			for _, o := range x.roots {
				o.name = "?"
				if v, _ := o.real.EGet(w.m.feature("Node", "bname")).(string); v != "" {
					o.name = v
				}
			}
			continue
		}
		if l.Size() != len(x.roots) {
			return fmt.Sprintf("%s holds %d objects, expected %s", x.real.GetURI(), l.Size(), rnames(x.roots))
		}
		for i, o := range x.roots {
			if o.real != nil {
				continue
			}
			o.real = l.Get(i).(ecore.EObject)
			for _, p := range w.objs {
				if p.real == o.real {
					return fmt.Sprintf("loading %s gave an object that was there before (%s)", x.real.GetURI(), p.name)
				}
			}
			w.objs = append(w.objs, o)
			if o.kid != nil {
				o.kid.real, _ = o.real.EGet(w.m.feature("Node", "kid")).(ecore.EObject)
				if o.kid.real == nil {
					return fmt.Sprintf("%s loaded without its kid", o.name)
				}
				w.objs = append(w.objs, o.kid)
			}
		}
	}
	return ""
}

func rnames(l []*robj) string {
	var b []string
	for _, o := range l {
		b = append(b, o.name)
	}
	return "[" + strings.Join(b, " ") + "]"
}

func without(l []*robj, o *robj) []*robj {
	var r []*robj
	for _, x := range l {
		if x != o {
			r = append(r, x)
		}
	}
	return r
}

func (w *rworld) holder(o *robj) *rres {
	for _, x := range w.res {
		for _, p := range x.roots {
			if p == o || p.kid == o && o != nil {
				return x
			}
		}
	}
	return nil
}

func (w *rworld) take(o *robj) {
	if x := w.holder(o); x != nil {
		x.roots = without(x.roots, o)
		if len(x.roots) == 0 {
			x.loaded = false
		}
	}
}

// find gives the resources a lookup may give.
func (w *rworld) find(s int, u string) []*rres {
	var l []*rres
	for _, r := range w.order(s) {
		if w.norm(r.uri) == w.norm(u) {
			l = append(l, r)
		}
	}
	return l
}

// pick gives the one of several resources of the same URI that a lookup has
// found and loaded: the first one, but with a URI-resource map any of them
// (got is what the lookup gave, if known).
func (w *rworld) pick(l []*rres, got any) *rres {
	if !w.conf.cache {
		return l[0]
	}
	for _, x := range l {
		if x.real.IsLoaded() != x.loaded || (problems(x.real) != "") != x.errs {
			return x
		}
	}
	if o, _ := got.(ecore.EObject); o != nil {
		for _, x := range l {
			if hit := len(x.roots) > 0 && x.roots[0].kid != nil && x.roots[0].kid.real == o; hit || o.EIsProxy() && (x.loaded || x.errs) && (len(x.roots) == 0 || x.roots[0].kid == nil) {
				return x
			}
		}
	}
	for _, x := range l {
		if x.loaded || x.errs {
			return x
		}
	}
	return l[0]
}

// get is a lookup with loading.
func (w *rworld) get(s int, u string, f func() ecore.EResource) (bad string) {
	l := w.find(s, u)
	got := f()
	if len(l) == 0 {
		if got == nil {
			return "nothing was created"
		}
		x := w.track(got, s, u)
		w.load(x)
		return ""
	}
	for i, x := range l {
		if x.real == got && (i == 0 || w.conf.cache) {
			w.load(x)
			return ""
		}
	}
	return fmt.Sprintf("found %s, expected %s", w.name(got), w.name(l[0].real))
}

func (w *rworld) name(r ecore.EResource) string {
	if r == nil {
		return "no resource"
	}
	for i, x := range w.res {
		if x.real == r {
			return fmt.Sprintf("r%d(%s)", i, r.GetURI())
		}
	}
	return fmt.Sprintf("an unknown resource (%s)", r.GetURI())
}

func (w *rworld) resolve(x *rres, o *robj, f func() any) string {
	want := o.to
	if want == nil {
		l := w.find(x.set, o.proxy)
		if x.set < 0 {
			l = nil
		} else if len(l) == 0 {
			f()
			// it has made the resource
			rs := w.sets[x.set].GetResources()
			if rs.Size() == 0 {
				return "no resource was made"
			}
			y := w.track(rs.Get(rs.Size()-1).(ecore.EResource), x.set, o.proxy)
			w.load(y)
			l = []*rres{y}
		} else {
			l = []*rres{w.pick(l, f())}
			w.load(l[0])
		}
		if len(l) > 0 && len(l[0].roots) > 0 {
			want = l[0].roots[0].kid
		}
	}
	got := f()
	if bad := w.adopt(); bad != "" {
		return bad
	}
	if want != nil {
		if got != any(want.real) {
			return fmt.Sprintf("the reference of %s gives another object than the one at %s", o.name, o.proxy)
		}
		o.to = want
		return ""
	}
	if p, _ := got.(ecore.EObject); p == nil || !p.EIsProxy() {
		return fmt.Sprintf("the reference of %s is no proxy any more", o.name)
	}
	return ""
}

func (w *rworld) check() string {
	for i, x := range w.res {
		at := fmt.Sprintf("r%d(%s)", i, x.uri)
		if x.real.GetURI().String() != x.uri {
			return fmt.Sprintf("%s has URI %s", at, x.real.GetURI())
		}
		var set ecore.EResourceSet
		if x.set >= 0 {
			set = w.sets[x.set]
		}
		if x.real.GetResourceSet() != set {
			return at + " is not in its set"
		}
		if x.real.IsLoading() {
			return at + " is loading"
		}
		if x.real.IsLoaded() != x.loaded {
			return fmt.Sprintf("%s: loaded %v, expected %v", at, x.real.IsLoaded(), x.loaded)
		}
		l := x.real.GetContents()
		if l.Size() != len(x.roots) {
			return fmt.Sprintf("%s holds %d objects, expected %s", at, l.Size(), rnames(x.roots))
		}
		for k, o := range x.roots {
			if l.Get(k) != any(o.real) {
				return fmt.Sprintf("%s: object %d is not %s", at, k, o.name)
			}
			if n, _ := o.real.EGet(w.m.feature("Node", "bname")).(string); n != o.name && o.name != "?" {
				return fmt.Sprintf("%s: object %d is called %q, not %s", at, k, n, o.name)
			}
		}
		if (problems(x.real) != "") != x.errs {
			return fmt.Sprintf("%s: errors %q, expected some: %v", at, problems(x.real), x.errs)
		}
		if x.events.bad != "" {
			return at + " " + x.events.bad
		}
		if x.listens && x.events.loaded != any(x.loaded) {
			return fmt.Sprintf("%s: its adapter was told it is loaded: %v", at, x.events.loaded)
		}
		if x.listens && (x.events.set == nil) != (set == nil) {
			return fmt.Sprintf("%s: its adapter was told its set is %v", at, x.events.set)
		}
		if x.listens && x.events.uri != any(x.real.GetURI()) {
			return fmt.Sprintf("%s: its adapter was told its URI is %v", at, x.events.uri)
		}
	}
	// where each object is
	for _, o := range w.objs {
		var want ecore.EResource
		if x := w.holder(o); x != nil {
			want = x.real
		}
		if got := o.real.EResource(); got != want {
			return fmt.Sprintf("%s is in %s, expected %s", o.name, w.name(got), w.name(want))
		}
		for i, x := range w.res {
			n := 0
			if want == x.real {
				n = 1
			}
			if x.listens && x.told[o.real] != n {
				return fmt.Sprintf("the listener of r%d was told %d times that %s is in it, expected %d", i, x.told[o.real], o.name, n)
			}
		}
	}
	for s, set := range w.sets {
		l := w.order(s)
		rs := set.GetResources()
		if rs.Size() != len(l) {
			return fmt.Sprintf("set %d has %d resources, expected %d", s, rs.Size(), len(l))
		}
		for i, x := range l {
			if rs.Get(i) != any(x.real) {
				return fmt.Sprintf("set %d: resource %d is %s", s, i, w.name(rs.Get(i).(ecore.EResource)))
			}
		}
		for _, u := range w.conf.uris {
			l := w.find(s, u)
			got := set.GetResource(ecore.NewURI(u), false)
			if len(l) == 0 && got != nil {
				return fmt.Sprintf("set %d: %s finds %s, expected nothing", s, u, w.name(got))
			}
			if len(l) == 0 {
				if set.GetEObject(ecore.NewURI(u+"#/0"), false) != nil {
					return fmt.Sprintf("set %d: an object is found at %s#/0", s, u)
				}
				continue
			}
			var at *rres
			for i, x := range l {
				if x.real == got && (i == 0 || w.conf.cache) {
					at = x
				}
			}
			if at == nil {
				return fmt.Sprintf("set %d: %s finds %s, expected %s", s, u, w.name(got), w.name(l[0].real))
			}
			for k := range len(at.roots) + 1 {
				o := set.GetEObject(ecore.NewURI(fmt.Sprintf("%s#/%d", u, k)), false)
				if k < len(at.roots) {
					if o != at.roots[k].real {
						return fmt.Sprintf("set %d: %s#/%d does not find %s", s, u, k, at.roots[k].name)
					}
					if f := at.real.GetURIFragment(o); at.real.GetEObject(f) != o {
						return fmt.Sprintf("%s is not found by its fragment %s", at.roots[k].name, f)
					}
				} else if o != nil {
					return fmt.Sprintf("set %d: %s#/%d finds an object", s, u, k)
				}
			}
		}
	}
	for d, n := range w.reads {
		if w.docs.reads[d] != n {
			return fmt.Sprintf("%s was read %d times, expected %d", d, w.docs.reads[d], n)
		}
	}
	return ""
}

func (w *rworld) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v|", w.mapped)
	for _, x := range w.res {
		fmt.Fprintf(&b, "%d,%s,%v,%v,%v", x.set, x.uri, x.loaded, x.errs, x.listens)
		for _, o := range x.roots {
			fmt.Fprintf(&b, " %s", o.name)
			if o.to != nil {
				h := "-"
				if r := w.holder(o.to); r != nil {
					h = r.uri
				}
				fmt.Fprintf(&b, ">%s", h)
			} else {
				b.WriteString("~" + o.proxy)
			}
		}
		b.WriteString("|")
	}
	for _, k := range sortedKeys(w.content) {
		fmt.Fprintf(&b, "%s=%v;", k, w.content[k])
	}
	return b.String()
}

func c22Ops(conf *rconf) []rop {
	var ops []rop
	has := func(k string) bool { return strings.Contains(" "+conf.ops+" ", " "+k+" ") }
	add := func(kind, name string, enabled func(w *rworld) bool, run func(w *rworld) string) {
		if has(kind) {
			ops = append(ops, rop{name, enabled, run})
		}
	}
	ok := func(f func(w *rworld)) func(w *rworld) string { return func(w *rworld) string { f(w); return "" } }
	room := func(w *rworld) bool { return len(w.res) < conf.max }
	for s := range conf.sets {
		for _, u := range conf.uris {
			add("create", fmt.Sprintf("s%d.CreateResource(%s)", s, u), room, func(w *rworld) string {
				x := w.track(w.sets[s].CreateResource(ecore.NewURI(u)), s, u)
				if conf.listen {
					w.listen(x)
				}
				return ""
			})
			add("get", fmt.Sprintf("s%d.GetResource(%s, load)", s, u), func(w *rworld) bool { return room(w) || len(w.find(s, u)) > 0 }, func(w *rworld) string {
				return w.get(s, u, func() ecore.EResource { return w.sets[s].GetResource(ecore.NewURI(u), true) })
			})
			add("getobject", fmt.Sprintf("s%d.GetEObject(%s#/0, load)", s, u), func(w *rworld) bool { return room(w) || len(w.find(s, u)) > 0 }, func(w *rworld) string {
				var o ecore.EObject
				bad := w.get(s, u, func() ecore.EResource {
					o = w.sets[s].GetEObject(ecore.NewURI(u+"#/0"), true)
					if o != nil {
						return o.EResource()
					}
					if l := w.find(s, u); len(l) > 0 {
						return w.pick(l, nil).real
					}
					if rs := w.sets[s].GetResources(); rs.Size() > 0 {
						return rs.Get(rs.Size() - 1).(ecore.EResource)
					}
					return nil
				})
				return bad
			})
		}
		add("resolveall", fmt.Sprintf("ResolveAllInResourceSet(s%d)", s), func(w *rworld) bool { return true }, func(w *rworld) string {
			ecore.ResolveAllInResourceSet(w.sets[s])
			for k := 0; k < len(w.order(s)); k++ {
				x := w.order(s)[k]
				for _, o := range x.roots {
					if o.proxy == "" || o.to != nil {
						continue
					}
					l := w.find(s, o.proxy)
					if len(l) == 0 {
						rs := w.sets[s].GetResources()
						if rs.Size() <= len(w.order(s)) {
							return "the document of " + o.proxy + " was not loaded"
						}
						l = []*rres{w.track(rs.Get(len(w.order(s))).(ecore.EResource), s, o.proxy)}
					}
					l = []*rres{w.pick(l, o.real.EGetResolve(w.m.feature("Node", "ref"), false))}
					w.load(l[0])
					if bad := w.adopt(); bad != "" {
						return bad
					}
					if len(l[0].roots) > 0 && l[0].roots[0].kid != nil {
						o.to = l[0].roots[0].kid
						if got := o.real.EGetResolve(w.m.feature("Node", "ref"), false); got != any(o.to.real) {
							return fmt.Sprintf("the reference of %s was not resolved", o.name)
						}
					}
				}
			}
			return ""
		})
	}
	for i := range conf.max {
		there := func(w *rworld) bool { return i < len(w.res) }
		with := func(f func(w *rworld, x *rres) string) func(w *rworld) string {
			return func(w *rworld) string { return f(w, w.res[i]) }
		}
		for s := range conf.sets {
			add("add", fmt.Sprintf("s%d.GetResources().Add(r%d)", s, i), there, with(func(w *rworld, x *rres) string {
				w.sets[s].GetResources().Add(x.real)
				if x.set != s {
					w.move(x, s)
				}
				return ""
			}))
			add("remove", fmt.Sprintf("s%d.GetResources().Remove(r%d)", s, i), there, with(func(w *rworld, x *rres) string {
				if got := w.sets[s].GetResources().Remove(x.real); got != (x.set == s) {
					return fmt.Sprintf("Remove gives %v", got)
				}
				if x.set == s {
					w.move(x, -1)
				}
				return ""
			}))
		}
		for _, u := range conf.uris {
			add("rename", fmt.Sprintf("r%d.SetURI(%s)", i, u), there, with(func(w *rworld, x *rres) string {
				x.real.SetURI(ecore.NewURI(u))
				x.uri = u
				return ""
			}))
		}
		add("listen", fmt.Sprintf("r%d listened to", i), func(w *rworld) bool {
			return i < len(w.res) && !w.res[i].listens && len(w.res[i].roots) == 0
		}, with(func(w *rworld, x *rres) string { w.track2(x); w.listen(x); return "" }))
		add("load", fmt.Sprintf("r%d.Load()", i), func(w *rworld) bool { return i < len(w.res) && w.res[i].set >= 0 }, with(func(w *rworld, x *rres) string {
			x.real.Load()
			w.load(x)
			return ""
		}))
		add("unload", fmt.Sprintf("r%d.Unload()", i), there, with(func(w *rworld, x *rres) string {
			x.real.Unload()
			if x.loaded {
				x.loaded, x.errs, x.roots = false, false, nil
			}
			return ""
		}))
		add("save", fmt.Sprintf("r%d.Save()", i), func(w *rworld) bool {
			if i >= len(w.res) || w.res[i].set < 0 {
				return false
			}
			for _, o := range w.res[i].roots {
				if o.name == "?" || o.proxy != "" {
					return false
				}
			}
			return true
		}, with(func(w *rworld, x *rres) string {
			x.real.Save()
			x.errs = false
			var names []string
			for _, o := range x.roots {
				names = append(names, o.name)
			}
			w.content[w.norm(x.uri)] = names
			return ""
		}))
		add("clear", fmt.Sprintf("r%d.GetContents().Clear()", i), there, with(func(w *rworld, x *rres) string {
			x.real.GetContents().Clear()
			x.roots = nil
			x.loaded = false
			return ""
		}))
		add("pop", fmt.Sprintf("r%d.GetContents().RemoveAt(0)", i), func(w *rworld) bool { return i < len(w.res) && len(w.res[i].roots) > 0 }, with(func(w *rworld, x *rres) string {
			x.real.GetContents().RemoveAt(0)
			x.roots = x.roots[1:]
			if len(x.roots) == 0 {
				x.loaded = false
			}
			return ""
		}))
		for k := range 2 {
			add("put", fmt.Sprintf("r%d.GetContents().Add(x%d)", i, k), there, with(func(w *rworld, x *rres) string {
				o := w.users[k]
				if w.holder(o) != x {
					w.take(o)
					x.roots = append(x.roots, o)
					x.loaded = true
				}
				x.real.GetContents().Add(o.real)
				return ""
			}))
			add("putfirst", fmt.Sprintf("r%d.GetContents().Insert(0, x%d)", i, k), func(w *rworld) bool {
				return i < len(w.res) && w.holder(w.users[k]) != w.res[i]
			}, with(func(w *rworld, x *rres) string {
				o := w.users[k]
				w.take(o)
				if len(x.roots) == 0 {
					x.loaded = true
				}
				x.roots = append([]*robj{o}, x.roots...)
				x.real.GetContents().Insert(0, o.real)
				return ""
			}))
		}
		add("resolve", fmt.Sprintf("r%d's reference", i), func(w *rworld) bool {
			if i >= len(w.res) || w.res[i].set < 0 {
				return false
			}
			for _, o := range w.res[i].roots {
				if o.proxy != "" {
					return o.to != nil || room(w) || len(w.find(w.res[i].set, o.proxy)) > 0
				}
			}
			return false
		}, with(func(w *rworld, x *rres) string {
			for _, o := range x.roots {
				if o.proxy != "" {
					return w.resolve(x, o, func() any { return o.real.EGet(w.m.feature("Node", "ref")) })
				}
			}
			return ""
		}))
	}
	add("map", "mapping of "+rMapFrom+" changes", func(w *rworld) bool { return true }, ok(func(w *rworld) {
		w.mapped = !w.mapped
		if w.mapped {
			w.docs.GetURIMap()[*ecore.NewURI(rMapFrom)] = *ecore.NewURI(rMapTo)
		} else {
			delete(w.docs.GetURIMap(), *ecore.NewURI(rMapFrom))
		}
	}))
	return ops
}

func (w *rworld) track2(x *rres) { x.events.loaded = x.real.IsLoaded() }

type rmachine struct {
	w   *rworld
	ops []rop
}

func (m *rmachine) Enabled(op int) bool { return m.ops[op].enabled(m.w) }

func (m *rmachine) Step(op int, check bool) *mc.Viol {
	bad := m.ops[op].run(m.w)
	if bad == "" {
		bad = m.w.adopt()
	}
	if bad == "" {
		bad = m.w.check()
	}
	if bad != "" {
		return &mc.Viol{Key: "resources", Msg: bad}
	}
	return nil
}

func (m *rmachine) Key() string { return m.w.key() }

func c22Items(tier string) []mc.Item {
	thorough := tier == "thorough"
	var items []mc.Item
	explore := func(name string, depth, more int, conf rconf) {
		items = append(items, mc.Item{Name: name, Run: func(c *mc.Ctx) {
			m := docMM()
			docs := c22Docs(m, conf.ext)
			ops := c22Ops(&conf)
			var names []string
			for _, o := range ops {
				names = append(names, o.name)
			}
			if c.Thorough() {
				depth += more
			}
			e := &mc.Explore{Ops: names, MaxDepth: depth, Variety: 2, KeyPrefix: strings.Split(name, "/")[0] + ":",
				New: func() mc.Machine { return &rmachine{w: newRWorld(&conf, m, docs), ops: ops} }}
			e.Run(c)
			c.Res.Traces = c.Res.Transitions
		}})
	}
	for _, ext := range []string{"ecore", "bin"} {
		a, b, none, bad, h := "a."+ext, "b."+ext, "none."+ext, "bad."+ext, "http://h/a."+ext
		hb := "http://h/b." + ext
		for _, cache := range []bool{false, true} {
			suffix := "/" + ext
			if cache {
				suffix += "/cached"
			}
			explore("lookup"+suffix, 5, 2, rconf{ext: ext, sets: 1, max: 2, cache: cache, uris: []string{a, h, none}, ops: "create get getobject rename add remove map"})
			explore("sets"+suffix, 5, 2, rconf{ext: ext, sets: 2, max: 2, cache: cache, uris: []string{a, none}, ops: "create get add remove rename unload"})
			explore("proxies"+suffix, 5, 2, rconf{ext: ext, sets: 1, max: 3, cache: cache, uris: []string{a, b}, ops: "create get load unload resolve resolveall clear rename remove add"})
			explore("mapped-proxies"+suffix, 5, 2, rconf{ext: ext, sets: 1, max: 3, cache: cache, uris: []string{hb, h, b}, ops: "create get load resolve resolveall map"})
		}
		for _, listen := range []bool{false, true} {
			name := "load/" + ext
			if listen {
				name += "/listeners"
			}
			explore(name, 5, 2, rconf{ext: ext, sets: 1, max: 2, listen: listen, uris: []string{a, bad}, ops: "create load unload save put pop clear get"})
			explore("contents"+strings.TrimPrefix(name, "load"), 6, 3, rconf{ext: ext, sets: 1, max: 2, listen: listen, uris: []string{a}, ops: "create load unload put putfirst pop clear remove"})
			explore("missing"+strings.TrimPrefix(name, "load"), 5, 2, rconf{ext: ext, sets: 1, max: 2, listen: listen, uris: []string{none, bad}, ops: "create load unload save put get getobject clear rename"})
		}
		explore("all/"+ext, 3, 1, rconf{ext: ext, sets: 2, max: 2, listen: true, uris: []string{a, b, h, none, bad}, ops: "create get getobject add remove rename load unload save put pop clear resolve resolveall map"})
	}
	// files
	letters := []string{"a", " ", "%", "#", "?", "é", "+", "&", "%20", ":", "~", "@", "..", "-", "\"", "'", "\\", "[", "=", ";"}
	n := 2
	if thorough {
		n = 3
	}
	for _, relative := range []bool{false, true} {
		name := "files/absolute"
		if relative {
			name = "files/relative"
		}
		items = append(items, mc.Item{Name: name, Run: func(c *mc.Ctx) {
			dir, err := os.MkdirTemp("", "mc-C22-")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			if relative {
				old, _ := os.Getwd()
				if err := os.Chdir(dir); err != nil {
					panic(err)
				}
				defer os.Chdir(old)
			}
			m := docMM()
			enumerate(func(ch *chooser) bool {
				if c.Expired() {
					return false
				}
				file := ""
				for range n {
					k := ch.pick(len(letters) + 1)
					if k == 0 {
						break
					}
					file += letters[k-1]
				}
				c.Beat(func() string { return file })
				bad := ""
				if p := mc.Panics(func() { bad = fileTrip(m, dir, file, relative) }); p != "" {
					bad = p
				}
				c.Res.States++
				c.Res.Traces++
				c.Res.Transitions += 4
				c.Eval(file)
				c.Beat(nil)
				return bad == "" || c.Failf("files", "%q: %s", file, bad)
			})
		}})
	}
	return items
}

// fileTrip saves two documents that refer to each other and loads them.
func fileTrip(m *mm, dir, file string, relative bool) string {
	names := []string{file + ".ecore", "other.bin"}
	cl := m.classes["Node"]
	ref, bname := m.feature("Node", "ref"), m.feature("Node", "bname")
	set := ecore.NewEResourceSetImpl()
	set.GetPackageRegistry().RegisterPackage(m.pkg)
	uri := func(k int) *ecore.URI {
		if relative {
			return ecore.CreateFileURI(names[k])
		}
		return ecore.CreateFileURI(filepath.Join(dir, names[k]))
	}
	var objs []ecore.EObject
	for k := range names {
		r := set.CreateResource(uri(k))
		o := cl.GetEPackage().GetEFactoryInstance().Create(cl)
		o.ESet(bname, names[k])
		r.GetContents().Add(o)
		objs = append(objs, o)
	}
	objs[0].ESet(ref, objs[1])
	objs[1].ESet(ref, objs[0])
	for _, r := range set.GetResources().ToArray() {
		r.(ecore.EResource).Save()
		if p := problems(r.(ecore.EResource)); p != "" {
			return "saving: " + p
		}
	}
	entries, _ := os.ReadDir(dir)
	var found []string
	for _, e := range entries {
		found = append(found, e.Name())
		defer os.Remove(filepath.Join(dir, e.Name()))
	}
	sort.Strings(names)
	sort.Strings(found)
	if strings.Join(names, "\n") != strings.Join(found, "\n") {
		return fmt.Sprintf("files %q", found)
	}
	names = []string{file + ".ecore", "other.bin"}
	for k := range names {
		set := ecore.NewEResourceSetImpl()
		set.GetPackageRegistry().RegisterPackage(m.pkg)
		for u := range names {
			r := set.GetResource(uri((k+u)%2), true)
			if p := problems(r); p != "" {
				return "loading: " + p
			}
			if r.GetContents().Size() != 1 {
				return fmt.Sprintf("%d objects loaded", r.GetContents().Size())
			}
			o := r.GetContents().Get(0).(ecore.EObject)
			p, _ := o.EGet(ref).(ecore.EObject)
			if p == nil || p.EIsProxy() || p.EGet(bname) != names[(k+u+1)%2] || p.EGet(ref) != any(o) {
				return fmt.Sprintf("the reference of %v leads to %v", o.EGet(bname), p)
			}
		}
		if n := set.GetResources().Size(); n != 2 {
			return fmt.Sprintf("%d resources loaded", n)
		}
	}
	return ""
}
