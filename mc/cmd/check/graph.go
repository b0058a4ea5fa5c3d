package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// ---------------------------------------------------------------------------
// reference model of an object graph: slots, containment, opposites, resources

type gfeat struct {
	name       string
	f          ecore.EStructuralFeature
	ref        bool
	many       bool
	cont       bool // containment
	container  bool // opposite is a containment
	resolve    bool // resolve flag of the containment side (cross-resource containment)
	unsettable bool
	opp        *gfeat
	idx        int
	owners     map[int]bool // objects whose class has the feature
	def        any          // attribute default
	vals       []any        // attribute values
	uniq       bool
}

type gstate struct {
	slots    [][][]int // object, feature -> elements
	contents [][]int   // resource -> objects
	attrs    [][]int   // object, feature: attribute value index, -1 unset
	inSet    []int     // resources of the resource set
	at       int       // root of the content adapter, -1 none
}

type gworld struct {
	mm    *mm
	feats []*gfeat
	n     int
	nres  int
}

func (w *gworld) newState() *gstate {
	s := &gstate{at: -1}
	for i := 0; i < w.n; i++ {
		s.slots = append(s.slots, make([][]int, len(w.feats)))
	}
	s.contents = make([][]int, w.nres)
	return s
}

func (s *gstate) clone() *gstate {
	c := &gstate{at: s.at, inSet: append([]int(nil), s.inSet...)}
	for _, o := range s.slots {
		var r [][]int
		for _, l := range o {
			r = append(r, append([]int(nil), l...))
		}
		c.slots = append(c.slots, r)
	}
	for _, l := range s.contents {
		c.contents = append(c.contents, append([]int(nil), l...))
	}
	return c
}

func remInt(l []int, x int) []int {
	for i, e := range l {
		if e == x {
			return append(append([]int(nil), l[:i]...), l[i+1:]...)
		}
	}
	return l
}
func insInt(l []int, i, x int) []int {
	r := append([]int(nil), l[:i]...)
	r = append(r, x)
	return append(r, l[i:]...)
}
func hasInt(l []int, x int) bool { return idxOf(l, x) >= 0 }

// containerOf returns the containment slot holding x.
func (w *gworld) containerOf(s *gstate, x int) (int, *gfeat) {
	for o := range s.slots {
		for _, f := range w.feats {
			if f.cont && hasInt(s.slots[o][f.idx], x) {
				return o, f
			}
		}
	}
	return -1, nil
}

func (w *gworld) directResource(s *gstate, x int) int {
	for r, l := range s.contents {
		if hasInt(l, x) {
			return r
		}
	}
	return -1
}

func (w *gworld) resourceOf(s *gstate, x int) int {
	for k := 0; x >= 0 && k <= w.n; k++ {
		if r := w.directResource(s, x); r >= 0 {
			return r
		}
		x, _ = w.containerOf(s, x)
	}
	return -1
}

// isAncestor: a is x or contains x, directly or not.
func (w *gworld) isAncestor(s *gstate, a, x int) bool {
	for k := 0; x >= 0 && k <= w.n; k++ {
		if x == a {
			return true
		}
		x, _ = w.containerOf(s, x)
	}
	return false
}

func (w *gworld) unlink(s *gstate, o int, f *gfeat, x int) {
	s.slots[o][f.idx] = remInt(s.slots[o][f.idx], x)
	if f.opp != nil {
		s.slots[x][f.opp.idx] = remInt(s.slots[x][f.opp.idx], o)
	}
}

func (w *gworld) leaveContainer(s *gstate, x int) {
	if o, f := w.containerOf(s, x); o >= 0 {
		w.unlink(s, o, f, x)
	}
}

func (w *gworld) leaveResource(s *gstate, x int) {
	for r := range s.contents {
		s.contents[r] = remInt(s.contents[r], x)
	}
}

// link inserts x in o.f at pos, keeping every other slot consistent.
func (w *gworld) link(s *gstate, o int, f *gfeat, pos, x int) {
	switch {
	case f.cont:
		w.leaveContainer(s, x)
		if !f.resolve {
			w.leaveResource(s, x)
		}
	case f.container:
		w.leaveContainer(s, o)
		if !f.resolve {
			w.leaveResource(s, o)
		}
		if !f.opp.many {
			for _, y := range s.slots[x][f.opp.idx] {
				w.unlink(s, x, f.opp, y)
			}
		}
	}
	if f.opp != nil && !f.opp.many && !f.container {
		for _, y := range append([]int(nil), s.slots[x][f.opp.idx]...) {
			w.unlink(s, x, f.opp, y)
		}
	}
	l := s.slots[o][f.idx]
	if pos < 0 || pos > len(l) {
		pos = len(l)
	}
	s.slots[o][f.idx] = insInt(l, pos, x)
	if f.opp != nil {
		l := s.slots[x][f.opp.idx]
		if !(f.opp == f && hasInt(l, o)) {
			s.slots[x][f.opp.idx] = insInt(l, len(l), o)
		}
	}
}

func (w *gworld) addContents(s *gstate, r, pos, x int) {
	if _, f := w.containerOf(s, x); f != nil && !f.resolve {
		w.leaveContainer(s, x)
	}
	w.leaveResource(s, x)
	l := s.contents[r]
	if pos > len(l) {
		pos = len(l)
	}
	s.contents[r] = insInt(l, pos, x)
}

// ---------------------------------------------------------------------------
// operations

type gop struct {
	name string
	kind string
	o    int    // object or resource
	f    *gfeat // nil for resource contents
	i, j int
	xs   []int
}

func objName(i int) string { return string(rune('a' + i)) }

func objNames(xs []int) string {
	var b strings.Builder
	for _, x := range xs {
		b.WriteString(objName(x))
	}
	return b.String()
}

// apply changes the model; ok=false: the operation must be rejected.
// enabled=false: outside the precondition (would create a containment cycle).
func (w *gworld) apply(s *gstate, op gop) (ok, enabled bool) {
	if strings.HasPrefix(op.kind, "rs:") || strings.HasPrefix(op.kind, "ca:") {
		return w.applyAdapterOp(s, op)
	}
	f := op.f
	var list func() []int
	var add func(pos, x int)
	var del func(x int)
	single := f != nil && !f.many
	if f != nil {
		list = func() []int { return s.slots[op.o][f.idx] }
		add = func(pos, x int) { w.link(s, op.o, f, pos, x) }
		del = func(x int) { w.unlink(s, op.o, f, x) }
	} else {
		list = func() []int { return s.contents[op.o] }
		add = func(pos, x int) { w.addContents(s, op.o, pos, x) }
		del = func(x int) { s.contents[op.o] = remInt(s.contents[op.o], x) }
	}
	cyc := func(x int) bool {
		if f == nil {
			return false
		}
		if f.cont {
			return w.isAncestor(s, x, op.o)
		}
		if f.container {
			return w.isAncestor(s, op.o, x)
		}
		return false
	}
	for _, x := range op.xs {
		if f != nil && f.opp != nil && !f.opp.owners[x] {
			return false, false
		}
		if cyc(x) {
			return false, false
		}
	}
	n := len(list())
	switch op.kind {
	case "set":
		x := op.xs[0]
		if !single {
			break
		}
		if hasInt(list(), x) {
			return true, true
		}
		for _, y := range append([]int(nil), list()...) {
			del(y)
		}
		add(0, x)
	case "setnil", "unset":
		if single {
			if f.container {
				w.leaveContainer(s, op.o)
				return true, true
			}
		}
		for _, y := range append([]int(nil), list()...) {
			del(y)
		}
	case "setmany":
		for _, y := range append([]int(nil), list()...) {
			del(y)
		}
		for _, x := range op.xs {
			if !hasInt(list(), x) {
				add(len(list()), x)
			}
		}
	case "clear":
		for _, y := range append([]int(nil), list()...) {
			del(y)
		}
	case "add":
		if x := op.xs[0]; !hasInt(list(), x) {
			add(n, x)
		}
	case "insert":
		if op.i > n {
			return false, false
		}
		if x := op.xs[0]; !hasInt(list(), x) {
			add(op.i, x)
		}
	case "addall", "insertall":
		i := n
		if op.kind == "insertall" {
			if op.i > n {
				return false, false
			}
			i = op.i
		}
		for _, x := range op.xs {
			if !hasInt(list(), x) {
				add(i, x)
				i++
			}
		}
	case "lset":
		if op.i >= n {
			return false, false
		}
		x := op.xs[0]
		if k := idxOf(list(), x); k >= 0 {
			return k == op.i, true
		}
		del(list()[op.i])
		add(op.i, x)
	case "remove":
		if x := op.xs[0]; hasInt(list(), x) {
			del(x)
		}
	case "removeall":
		for _, x := range op.xs {
			if hasInt(list(), x) {
				del(x)
			}
		}
	case "removeat":
		if op.i >= n {
			return false, false
		}
		del(list()[op.i])
	case "removerange":
		if op.i >= n || op.j > n {
			return false, false
		}
		for _, x := range append([]int(nil), list()[op.i:op.j]...) {
			del(x)
		}
	case "move":
		if op.i >= n || op.j >= n {
			return false, false
		}
		l := list()
		x := l[op.i]
		l = insInt(remInt(l, x), op.j, x)
		if f != nil {
			s.slots[op.o][f.idx] = l
		} else {
			s.contents[op.o] = l
		}
	default:
		panic(op.kind)
	}
	return true, true
}

func (w *gworld) alphabet(resOps bool, pairs bool) []gop {
	var ops []gop
	addList := func(o int, f *gfeat, pre string) {
		put := func(kind string, i, j int, xs ...int) {
			n := pre + "." + kind + "("
			switch kind {
			case "insert", "lset", "insertall":
				n += fmt.Sprint(i, ",")
			case "removeat":
				n += fmt.Sprint(i)
			case "removerange", "move":
				n += fmt.Sprint(i, ",", j)
			}
			ops = append(ops, gop{n + objNames(xs) + ")", kind, o, f, i, j, xs})
		}
		for x := 0; x < w.n; x++ {
			put("add", 0, 0, x)
			put("insert", 0, 0, x)
			put("insert", 1, 0, x)
			put("lset", 0, 0, x)
			put("lset", 1, 0, x)
			put("remove", 0, 0, x)
		}
		put("removeat", 0, 0)
		put("removeat", 1, 0)
		put("removeat", 2, 0)
		put("move", 0, 1)
		put("move", 1, 0)
		put("move", 0, 2)
		put("move", 2, 0)
		put("removerange", 0, 2)
		put("removerange", 1, 2)
		put("clear", 0, 0)
		if pairs {
			for x := 0; x < w.n; x++ {
				for y := 0; y < w.n; y++ {
					if x != y {
						put("addall", 0, 0, x, y)
						put("insertall", 0, 0, x, y)
					}
				}
			}
			if w.n > 3 {
				put("addall", 0, 0, 1, 2, 3)
				put("removeall", 0, 0, 1, 3)
				put("removeall", 0, 0, 1, 2, 3)
			}
			put("removeall", 0, 0, 0, 2)
			put("removeall", 0, 0, 1, 2)
			put("addall", 0, 0)
			put("addall", 0, 0, 2, 2)
		}
		if f != nil {
			put("setmany", 0, 0)
			put("setmany", 0, 0, 1)
			put("setmany", 0, 0, 2, 1)
			put("unset", 0, 0)
		}
	}
	for o := 0; o < w.n; o++ {
		for _, f := range w.feats {
			if !f.ref || !f.owners[o] {
				continue
			}
			pre := objName(o) + "." + f.name
			if f.many {
				addList(o, f, pre)
				continue
			}
			for x := 0; x < w.n; x++ {
				ops = append(ops, gop{pre + "=" + objName(x), "set", o, f, 0, 0, []int{x}})
			}
			ops = append(ops, gop{pre + "=nil", "setnil", o, f, 0, 0, nil}, gop{"unset " + pre, "unset", o, f, 0, 0, nil})
		}
	}
	if resOps {
		for r := 0; r < w.nres; r++ {
			addList(r, nil, fmt.Sprintf("r%d", r))
		}
	}
	return ops
}

// ---------------------------------------------------------------------------
// the real side

type gsys struct {
	w     *gworld
	ops   []gop
	kinds []string
	objs  []ecore.EObject
	ress  []ecore.EResource
	model *gstate
	store *memStore
	// notifications
	record   bool
	events   []gevent
	silent   int // object with delivery off, -1 none
	badEvent string
	noModel  bool
	// content adapter
	ca  *gca
	set ecore.EResourceSet
}

type gevent struct {
	isRes bool
	o     int
	f     *gfeat
	typ   ecore.EventType
	pos   int
	old   any // int (object index, -1 nil), []int
	new   any
	text  string
}

type recAdapter struct {
	ecore.AbstractEAdapter
	s     *gsys
	o     int
	isRes bool
}

func (a *recAdapter) NotifyChanged(n ecore.ENotification) { a.s.onEvent(a, n) }

func (s *gsys) indexOf(x any) int {
	if x == nil {
		return -1
	}
	for i, o := range s.objs {
		if any(o) == x {
			return i
		}
	}
	return -99
}

func (s *gsys) onEvent(a *recAdapter, n ecore.ENotification) {
	if n.GetEventType() == ecore.REMOVING_ADAPTER {
		return
	}
	if s.ca != nil {
		s.caSeen(n.GetNotifier())
		return
	}
	e := gevent{o: a.o, isRes: a.isRes, typ: n.GetEventType(), pos: n.GetPosition()}
	conv := func(v any) any {
		switch t := v.(type) {
		case nil:
			return -1
		case []any:
			r := []int{}
			for _, x := range t {
				if p, ok := x.(int); ok {
					r = append(r, p)
				} else {
					r = append(r, s.indexOf(x))
				}
			}
			return r
		case []int:
			return append([]int{}, t...)
		case int:
			return 1000 + t
		case ecore.EObject:
			return s.indexOf(t)
		case ecore.EList:
			r := []int{}
			for x := range t.All() {
				r = append(r, s.indexOf(x))
			}
			return r
		}
		return v
	}
	if a.isRes {
		if n.GetFeatureID() != ecore.RESOURCE__CONTENTS {
			return
		}
		if any(n.GetNotifier()) != any(s.ress[a.o]) {
			s.badEvent = "a resource's adapter received a notification of another notifier"
		}
	} else {
		if any(n.GetNotifier()) != any(s.objs[a.o]) {
			s.badEvent = fmt.Sprintf("an adapter of %s received a notification of another notifier", objName(a.o))
		}
		f := n.GetFeature()
		for _, g := range s.w.feats {
			if g.f == f {
				e.f = g
			}
		}
		if e.f == nil {
			s.badEvent = fmt.Sprintf("notification of %s without a known feature: type %d id %d", objName(a.o), n.GetEventType(), n.GetFeatureID())
			return
		}
		if id := s.objs[a.o].EClass().GetFeatureID(f); n.GetFeatureID() != id {
			s.badEvent = fmt.Sprintf("notification of %s.%s carries feature id %d instead of %d", objName(a.o), e.f.name, n.GetFeatureID(), id)
		}
		if s.silent == a.o {
			s.badEvent = fmt.Sprintf("notification delivered for %s although its delivery is off", objName(a.o))
		}
	}
	e.old, e.new = conv(n.GetOldValue()), conv(n.GetNewValue())
	nm := fmt.Sprintf("r%d.contents", e.o)
	if !e.isRes {
		nm = objName(e.o) + "." + e.f.name
	}
	e.text = fmt.Sprintf("%s: type=%d pos=%d old=%v new=%v", nm, e.typ, e.pos, e.old, e.new)
	s.events = append(s.events, e)
}

func (s *gsys) Enabled(i int) bool {
	_, en := s.w.apply(s.model.clone(), s.ops[i])
	return en
}

func (s *gsys) Key() string { return s.show(s.model) }

func (s *gsys) show(m *gstate) string {
	var b strings.Builder
	for o := range m.slots {
		for _, f := range s.w.feats {
			if l := m.slots[o][f.idx]; len(l) > 0 {
				fmt.Fprintf(&b, "%s.%s=[%s] ", objName(o), f.name, objNames(l))
			}
		}
	}
	for r, l := range m.contents {
		if len(l) > 0 {
			fmt.Fprintf(&b, "r%d=[%s] ", r, objNames(l))
		}
	}
	if s.set != nil {
		fmt.Fprintf(&b, "set=%v ", m.inSet)
	}
	if m.at >= 0 {
		fmt.Fprintf(&b, "adapter at %s ", rootName(m.at))
	}
	return b.String()
}

func (s *gsys) real(op gop) {
	coll := func() ecore.EList {
		d := make([]any, 0, len(op.xs)+1)
		for _, x := range op.xs {
			d = append(d, s.objs[x])
		}
		return ecore.NewBasicEList(d)
	}
	var l ecore.EList
	if op.f == nil {
		l = s.ress[op.o].GetContents()
	} else if op.f.many {
		switch op.kind {
		case "setmany":
			s.objs[op.o].ESet(op.f.f, coll())
			return
		case "unset":
			s.objs[op.o].EUnset(op.f.f)
			return
		}
		l = s.objs[op.o].EGet(op.f.f).(ecore.EList)
	} else {
		switch op.kind {
		case "set":
			s.objs[op.o].ESet(op.f.f, s.objs[op.xs[0]])
		case "setnil":
			s.objs[op.o].ESet(op.f.f, nil)
		case "unset":
			s.objs[op.o].EUnset(op.f.f)
		}
		return
	}
	var x any
	if len(op.xs) > 0 {
		x = s.objs[op.xs[0]]
	}
	switch op.kind {
	case "add":
		l.Add(x)
	case "insert":
		l.Insert(op.i, x)
	case "addall":
		l.AddAll(coll())
	case "insertall":
		l.InsertAll(op.i, coll())
	case "lset":
		l.Set(op.i, x)
	case "remove":
		l.Remove(x)
	case "removeall":
		l.RemoveAll(coll())
	case "removeat":
		l.RemoveAt(op.i)
	case "removerange":
		l.RemoveRange(op.i, op.j)
	case "move":
		l.Move(op.i, op.j)
	case "clear":
		l.Clear()
	default:
		panic(op.kind)
	}
}

func (s *gsys) Step(i int, check bool) *mc.Viol {
	op := s.ops[i]
	before := s.model.clone()
	ok, _ := s.w.apply(s.model, op)
	s.events = s.events[:0]
	s.badEvent = ""
	if s.ca != nil {
		clear(s.ca.seen)
		clear(s.ca.told)
	}
	p := mc.Panics(func() {
		if strings.HasPrefix(op.kind, "rs:") || strings.HasPrefix(op.kind, "ca:") {
			s.realAdapterOp(op, max(before.at, s.model.at))
			return
		}
		s.real(op)
	})
	if !check {
		return nil
	}
	fn := "contents"
	if op.f != nil {
		fn = op.f.name
	}
	key := op.kind + ":" + fn + ":"
	if ok && p != "" {
		return &mc.Viol{Key: key + "panic", Msg: fmt.Sprintf("%s on {%s} panicked: %s at %s", op.name, s.show(before), p, mc.LastStack())}
	}
	if !ok && p == "" {
		return &mc.Viol{Key: key + "accepted", Msg: fmt.Sprintf("%s on {%s} must be rejected", op.name, s.show(before))}
	}
	if d := s.diff(); d != "" {
		return &mc.Viol{Key: key + "state", Msg: fmt.Sprintf("after %s on {%s} expected {%s}: %s", op.name, s.show(before), s.show(s.model), d)}
	}
	if s.ca != nil {
		if d := s.diffAdapter(before); d != "" {
			return &mc.Viol{Key: key + "adapter", Msg: fmt.Sprintf("after %s on {%s} giving {%s}: %s", op.name, s.show(before), s.show(s.model), d)}
		}
		return nil
	}
	if s.record {
		if d := s.replayEvents(before); d != "" {
			var ev []string
			for _, e := range s.events {
				ev = append(ev, e.text)
			}
			return &mc.Viol{Key: key + "notification", Msg: fmt.Sprintf("after %s on {%s} giving {%s}: %s\nnotifications: %s", op.name, s.show(before), s.show(s.model), d, strings.Join(ev, "; "))}
		}
	}
	return nil
}

// replayEvents applies the recorded notifications to the previous state.
func (s *gsys) replayEvents(before *gstate) string {
	if s.badEvent != "" {
		return s.badEvent
	}
	st := before.clone()
	for _, e := range s.events {
		var l *[]int
		many := true
		if e.isRes {
			l = &st.contents[e.o]
		} else {
			l = &st.slots[e.o][e.f.idx]
			many = e.f.many
		}
		bad := func(m string) string {
			return "notification {" + e.text + "}: " + m + " (replayed so far: " + objNames(*l) + ")"
		}
		cur := append([]int(nil), *l...)
		if !many {
			old := -1
			if len(cur) > 0 {
				old = cur[0]
			}
			switch e.typ {
			case ecore.SET, ecore.UNSET:
				if e.old != old {
					return bad(fmt.Sprintf("old value should be %d", old))
				}
				n, ok := e.new.(int)
				if !ok || n == -99 {
					return bad("new value is not an object")
				}
				*l = nil
				if n >= 0 {
					*l = []int{n}
				}
			default:
				return bad("unexpected type for a single-valued feature")
			}
			continue
		}
		switch e.typ {
		case ecore.ADD:
			n, ok := e.new.(int)
			if !ok || n < 0 || e.pos < 0 || e.pos > len(cur) {
				return bad("invalid addition")
			}
			*l = insInt(cur, e.pos, n)
		case ecore.ADD_MANY:
			ns, ok := e.new.([]int)
			if !ok || e.pos < 0 || e.pos > len(cur) {
				return bad("invalid addition")
			}
			for k, n := range ns {
				if n < 0 {
					return bad("unknown object")
				}
				cur = insInt(cur, e.pos+k, n)
			}
			*l = cur
		case ecore.REMOVE:
			n, ok := e.old.(int)
			if !ok || e.pos < 0 || e.pos >= len(cur) || cur[e.pos] != n {
				return bad("invalid removal")
			}
			*l = append(cur[:e.pos:e.pos], cur[e.pos+1:]...)
		case ecore.REMOVE_MANY:
			os, ok := e.old.([]int)
			if !ok {
				return bad("invalid removal")
			}
			ps, ok := e.new.([]int)
			if !ok {
				if fmt.Sprint(os) != fmt.Sprint(cur) && !(len(os) == 0 && len(cur) == 0) {
					return bad("old values are not the removed ones")
				}
				*l = nil
				continue
			}
			if len(ps) != len(os) {
				return bad("as many positions as old values expected")
			}
			drop := map[int]bool{}
			for k, p := range ps {
				if p < 0 || p >= len(cur) || cur[p] != os[k] || drop[p] {
					return bad("position and old value do not match")
				}
				drop[p] = true
			}
			var r []int
			for k, x := range cur {
				if !drop[k] {
					r = append(r, x)
				}
			}
			*l = r
		case ecore.MOVE:
			n, ok := e.new.(int)
			from, ok2 := e.old.(int)
			from -= 1000
			if !ok || !ok2 || from < 0 || from >= len(cur) || cur[from] != n || e.pos < 0 || e.pos >= len(cur) {
				return bad("invalid move")
			}
			*l = insInt(append(cur[:from:from], cur[from+1:]...), e.pos, n)
		case ecore.SET:
			n, ok := e.new.(int)
			if !ok || n < 0 || e.pos < 0 || e.pos >= len(cur) || e.old != cur[e.pos] {
				return bad("invalid replacement")
			}
			cur[e.pos] = n
			*l = cur
		case ecore.UNSET:
			*l = nil
		default:
			return bad("unexpected type")
		}
	}
	cmp := func(what string, a, b []int) string {
		if fmt.Sprint(a) != fmt.Sprint(b) && !(len(a) == 0 && len(b) == 0) {
			return fmt.Sprintf("replaying the notifications gives %s=[%s] instead of [%s]", what, objNames(a), objNames(b))
		}
		return ""
	}
	for o := range st.slots {
		if o == s.silent {
			continue
		}
		for _, f := range s.w.feats {
			if d := cmp(objName(o)+"."+f.name, st.slots[o][f.idx], s.model.slots[o][f.idx]); d != "" {
				return d
			}
		}
	}
	for r := range st.contents {
		if d := cmp(fmt.Sprintf("r%d", r), st.contents[r], s.model.contents[r]); d != "" {
			return d
		}
	}
	return ""
}

// diff compares every observable of the real objects with the model.
func (s *gsys) diff() string {
	w, m := s.w, s.model
	for o, obj := range s.objs {
		for _, f := range w.feats {
			if !f.owners[o] {
				continue
			}
			nm := objName(o) + "." + f.name
			want := m.slots[o][f.idx]
			v := obj.EGet(f.f)
			if f.many {
				l, ok := v.(ecore.EList)
				if !ok {
					return fmt.Sprintf("%s is %T", nm, v)
				}
				var got []int
				for x := range l.All() {
					got = append(got, s.indexOf(x))
				}
				if fmt.Sprint(got) != fmt.Sprint(want) && !(len(got) == 0 && len(want) == 0) {
					return fmt.Sprintf("%s holds %v instead of [%s]", nm, got, objNames(want))
				}
				if l.Size() != len(want) {
					return fmt.Sprintf("%s.Size()=%d", nm, l.Size())
				}
				for x := range s.objs {
					if l.Contains(s.objs[x]) != hasInt(want, x) {
						return fmt.Sprintf("%s.Contains(%s) is wrong", nm, objName(x))
					}
				}
			} else {
				wi := -1
				if len(want) > 0 {
					wi = want[0]
				}
				if got := s.indexOf(v); got != wi {
					return fmt.Sprintf("%s is %v instead of %d", nm, got, wi)
				}
				if got := s.indexOf(obj.EGetResolve(f.f, false)); got != wi {
					return fmt.Sprintf("%s unresolved is %v instead of %d", nm, got, wi)
				}
				if got := obj.EIsSet(f.f); got != (wi >= 0) {
					return fmt.Sprintf("EIsSet(%s)=%v", nm, got)
				}
			}
		}
		co, cf := w.containerOf(m, o)
		var c any
		if e := obj.EContainer(); e != nil {
			c = e
		}
		if got := s.indexOf(c); got != co {
			return fmt.Sprintf("container of %s is %v instead of %d", objName(o), got, co)
		}
		var ci any
		if e := obj.(ecore.EObjectInternal).EInternalContainer(); e != nil {
			ci = e
		}
		if got := s.indexOf(ci); got != co {
			return fmt.Sprintf("internal container of %s is %v instead of %d", objName(o), got, co)
		}
		if co >= 0 {
			if got := obj.EContainingFeature(); got != cf.f {
				return fmt.Sprintf("containing feature of %s is not %s", objName(o), cf.name)
			}
		}
		wr := w.resourceOf(m, o)
		gr := -1
		if r := obj.EResource(); r != nil {
			gr = -99
			for k := range s.ress {
				if s.ress[k] == r {
					gr = k
				}
			}
		}
		if gr != wr {
			return fmt.Sprintf("resource of %s is %d instead of %d", objName(o), gr, wr)
		}
		wd := w.directResource(m, o)
		gd := -1
		if r := obj.(ecore.EObjectInternal).EInternalResource(); r != nil {
			gd = -99
			for k := range s.ress {
				if s.ress[k] == r {
					gd = k
				}
			}
		}
		if gd != wd {
			return fmt.Sprintf("direct resource of %s is %d instead of %d", objName(o), gd, wd)
		}
		// contents: every containment slot in feature order
		var want []int
		for _, id := range featureOrder(obj, w, o) {
			want = append(want, m.slots[o][id.idx]...)
		}
		var got []int
		for x := range obj.EContents().All() {
			got = append(got, s.indexOf(x))
		}
		sort.Ints(want)
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(want) && len(got)+len(want) > 0 {
			return fmt.Sprintf("contents of %s are %v instead of %v", objName(o), got, want)
		}
	}
	for r, res := range s.ress {
		var got []int
		for x := range res.GetContents().All() {
			got = append(got, s.indexOf(x))
		}
		if fmt.Sprint(got) != fmt.Sprint(m.contents[r]) && len(got)+len(m.contents[r]) > 0 {
			return fmt.Sprintf("r%d holds %v instead of %v", r, got, m.contents[r])
		}
	}
	return ""
}

func featureOrder(obj ecore.EObject, w *gworld, o int) []*gfeat {
	var r []*gfeat
	for _, f := range w.feats {
		if f.cont && f.owners[o] {
			r = append(r, f)
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// scenarios

type gscenario struct {
	name    string
	classes []cspec
	objs    []string // class of each object
	feats   []string // features that take part
	nres    int
	depth   int
	deep    int
	pairs   bool
	kinds   []string // one kind per object, or nil: every kind in turn
	mkops   func(*gworld) []gop
	silent  int // 1+object with notification delivery off
	ca      *gca
	rset    bool
}

// metamodels do not change in these scenarios: one per scenario and process
var gwc = map[string]*gworldOps{}

type gworldOps struct {
	w   *gworld
	ops []gop
}

func (sc *gscenario) world() *gworldOps {
	m := newMM("http://g/"+sc.name, sc.classes)
	w := &gworld{mm: m, n: len(sc.objs), nres: sc.nres}
	by := map[ecore.EStructuralFeature]*gfeat{}
	for i, fn := range sc.feats {
		f := m.f(fn)
		g := &gfeat{name: fn[strings.IndexByte(fn, '.')+1:], f: f, many: f.IsMany(), idx: i, owners: map[int]bool{}}
		r, _ := f.(ecore.EReference)
		g.ref = r != nil
		if r != nil {
			g.cont = r.IsContainment()
			g.resolve = r.IsResolveProxies()
		}
		for o, cn := range sc.objs {
			if m.c(cn).GetFeatureID(f) >= 0 {
				g.owners[o] = true
			}
		}
		by[f] = g
		w.feats = append(w.feats, g)
	}
	for _, g := range w.feats {
		if r, _ := g.f.(ecore.EReference); r != nil && r.GetEOpposite() != nil {
			g.opp = by[r.GetEOpposite()]
			if g.opp == nil {
				panic("opposite not in scenario: " + g.name)
			}
			g.container = g.opp.cont
		}
	}
	for _, g := range w.feats {
		if g.container {
			g.resolve = g.opp.resolve
		}
	}
	if sc.mkops != nil {
		return &gworldOps{w, sc.mkops(w)}
	}
	ops := w.alphabet(sc.nres > 0, sc.pairs)
	if sc.ca != nil {
		ops = w.adapterOps(sc.rset, ops)
	}
	return &gworldOps{w, ops}
}

func (sc *gscenario) build(kinds []string, record bool) *gsys {
	wc := gwc[sc.name]
	if wc == nil {
		wc = sc.world()
		gwc[sc.name] = wc
	}
	w, m := wc.w, wc.w.mm
	s := &gsys{w: w, kinds: kinds, model: w.newState(), store: newMemStore(), record: record, silent: sc.silent - 1}
	for o, cn := range sc.objs {
		k := kinds[o%len(kinds)]
		obj := newObj(k, m.c(cn), s.store)
		s.objs = append(s.objs, obj)
	}
	for r := 0; r < sc.nres; r++ {
		res := ecore.NewEResourceImpl()
		s.ress = append(s.ress, res)
	}
	if sc.rset {
		s.set = ecore.NewEResourceSetImpl()
		s.set.EAdapters().Add(&setRecorder{s: s})
	} else if sc.ca != nil {
		s.set = nil
	}
	if sc.ca != nil {
		v := *sc.ca
		s.ca = &v
		s.initAdapter()
	}
	if record {
		for i, o := range s.objs {
			o.EAdapters().Add(&recAdapter{s: s, o: i})
			if i == s.silent {
				o.ESetDeliver(false)
			}
		}
		for i, r := range s.ress {
			r.EAdapters().Add(&recAdapter{s: s, o: i, isRes: true})
		}
	}
	s.ops = wc.ops
	return s
}

func (sc *gscenario) item(prefix string, kinds []string, record bool) mc.Item {
	kn := strings.Join(kinds, "+")
	return mc.Item{Name: prefix + "/" + sc.name + "/" + kn, Run: func(c *mc.Ctx) {
		s0 := sc.build(kinds, record)
		names := make([]string, len(s0.ops))
		for i, o := range s0.ops {
			names[i] = o.name
		}
		d := sc.depth
		v := 3
		if c.Thorough() {
			d, v = sc.deep, 8
		}
		e := &mc.Explore{Ops: names, New: func() mc.Machine { return sc.build(kinds, record) }, MaxDepth: d, Variety: v, KeyPrefix: sc.name + "/" + kn + ":"}
		e.Run(c)
		c.Res.Traces = c.Res.Transitions
	}}
}
