package main

import (
	"fmt"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// listOp is one call on an ecore.EList together with its reference meaning.
type listOp struct {
	name string
	kind string
	i, j int
	el   []int // element indexes
	self bool  // the collection is the list itself
}

func listAlphabet(nElems, maxSize int, colls [][]int) []listOp {
	var ops []listOp
	el := func(e int) string { return string(rune('a' + e)) }
	cs := func(c []int) string {
		s := ""
		for _, e := range c {
			s += el(e)
		}
		return "[" + s + "]"
	}
	for e := 0; e < nElems; e++ {
		ops = append(ops, listOp{name: "Add(" + el(e) + ")", kind: "Add", el: []int{e}})
	}
	for i := -1; i <= maxSize+1; i++ {
		for e := 0; e < nElems; e++ {
			ops = append(ops, listOp{name: fmt.Sprintf("Insert(%d,%s)", i, el(e)), kind: "Insert", i: i, el: []int{e}})
			ops = append(ops, listOp{name: fmt.Sprintf("Set(%d,%s)", i, el(e)), kind: "Set", i: i, el: []int{e}})
		}
		ops = append(ops, listOp{name: fmt.Sprintf("RemoveAt(%d)", i), kind: "RemoveAt", i: i})
		for j := -1; j <= maxSize+1; j++ {
			ops = append(ops, listOp{name: fmt.Sprintf("Move(%d,%d)", i, j), kind: "Move", i: i, j: j})
			ops = append(ops, listOp{name: fmt.Sprintf("RemoveRange(%d,%d)", i, j), kind: "RemoveRange", i: i, j: j})
		}
		for _, c := range colls {
			ops = append(ops, listOp{name: fmt.Sprintf("InsertAll(%d,%s)", i, cs(c)), kind: "InsertAll", i: i, el: c})
		}
		ops = append(ops, listOp{name: fmt.Sprintf("InsertAll(%d,self)", i), kind: "InsertAll", i: i, self: true})
	}
	for e := 0; e < nElems; e++ {
		ops = append(ops, listOp{name: "Remove(" + el(e) + ")", kind: "Remove", el: []int{e}})
		for i := -1; i <= maxSize+1; i++ {
			ops = append(ops, listOp{name: fmt.Sprintf("MoveObject(%d,%s)", i, el(e)), kind: "MoveObject", i: i, el: []int{e}})
		}
	}
	for _, c := range colls {
		ops = append(ops, listOp{name: "AddAll(" + cs(c) + ")", kind: "AddAll", el: c})
		ops = append(ops, listOp{name: "RemoveAll(" + cs(c) + ")", kind: "RemoveAll", el: c})
	}
	ops = append(ops, listOp{name: "AddAll(self)", kind: "AddAll", self: true})
	ops = append(ops, listOp{name: "RemoveAll(self)", kind: "RemoveAll", self: true})
	ops = append(ops, listOp{name: "Clear()", kind: "Clear"})
	return ops
}

func idxOf(m []int, e int) int {
	for i, x := range m {
		if x == e {
			return i
		}
	}
	return -1
}

// modelResult is what a plain list does.
type modelResult struct {
	next     []int
	panics   bool // must be rejected with the list unchanged
	may      bool // either rejected or an unchanged list
	ret      any  // nil: not compared
	checkRet bool
}

func cp(m []int) []int { return append([]int{}, m...) }

func insertAt(m []int, i int, c []int) []int {
	r := append([]int{}, m[:i]...)
	r = append(r, c...)
	return append(r, m[i:]...)
}

func listModel(m []int, op listOp, unique bool) modelResult {
	n := len(m)
	c := op.el
	if op.self {
		c = cp(m)
	}
	dedup := func() []int {
		if !unique {
			return c
		}
		var r []int
		for _, e := range c {
			if idxOf(m, e) < 0 && idxOf(r, e) < 0 {
				r = append(r, e)
			}
		}
		return r
	}
	rm := func(i int) []int { return append(cp(m[:i]), m[i+1:]...) }
	move := func(i, j int) []int {
		r := rm(i)
		return insertAt(r, j, []int{m[i]})
	}
	switch op.kind {
	case "Add":
		if unique && idxOf(m, c[0]) >= 0 {
			return modelResult{next: m, ret: false, checkRet: true}
		}
		return modelResult{next: append(cp(m), c[0]), ret: true, checkRet: true}
	case "Insert":
		if op.i < 0 || op.i > n {
			return modelResult{next: m, panics: true}
		}
		if unique && idxOf(m, c[0]) >= 0 {
			return modelResult{next: m, ret: false, checkRet: true}
		}
		return modelResult{next: insertAt(m, op.i, c), ret: true, checkRet: true}
	case "AddAll", "InsertAll":
		i := n
		if op.kind == "InsertAll" {
			i = op.i
			if i < 0 || i > n {
				return modelResult{next: m, panics: true}
			}
		}
		d := dedup()
		if len(d) == 0 {
			// for a non-unique list the return value of an empty addition is not specified
			return modelResult{next: m, ret: false, checkRet: unique}
		}
		return modelResult{next: insertAt(m, i, d), ret: true, checkRet: true}
	case "Set":
		if op.i < 0 || op.i >= n {
			return modelResult{next: m, panics: true}
		}
		if k := idxOf(m, c[0]); unique && k >= 0 && k != op.i {
			return modelResult{next: m, panics: true}
		}
		r := cp(m)
		r[op.i] = c[0]
		return modelResult{next: r, ret: m[op.i], checkRet: true}
	case "RemoveAt":
		if op.i < 0 || op.i >= n {
			return modelResult{next: m, panics: true}
		}
		return modelResult{next: rm(op.i), ret: m[op.i], checkRet: true}
	case "Remove":
		k := idxOf(m, c[0])
		if k < 0 {
			return modelResult{next: m, ret: false, checkRet: true}
		}
		return modelResult{next: rm(k), ret: true, checkRet: true}
	case "Move":
		if op.i < 0 || op.i >= n || op.j < 0 || op.j >= n {
			return modelResult{next: m, panics: true}
		}
		return modelResult{next: move(op.i, op.j), ret: m[op.i], checkRet: true}
	case "MoveObject":
		k := idxOf(m, c[0])
		if k < 0 || op.i < 0 || op.i >= n {
			return modelResult{next: m, panics: true}
		}
		return modelResult{next: move(k, op.i)}
	case "RemoveRange":
		if op.i < 0 || op.j < 0 || op.i > n || op.j > n || op.i > op.j {
			return modelResult{next: m, panics: true}
		}
		if op.i == n { // empty range at the end
			return modelResult{next: m, may: true}
		}
		return modelResult{next: append(cp(m[:op.i]), m[op.j:]...)}
	case "RemoveAll":
		var r []int
		for _, e := range m {
			if idxOf(c, e) < 0 {
				r = append(r, e)
			}
		}
		return modelResult{next: r, ret: len(r) != n, checkRet: true}
	case "Clear":
		return modelResult{next: nil}
	}
	panic("unknown op " + op.kind)
}

// listSys drives one real list.
type listSys struct {
	list      ecore.EList
	unique    bool
	elems     []any
	vals      []any // elements as they read back (resolved)
	model     []int
	ops       []listOp
	max       int
	extra     func(model []int, check bool) string // further views to compare
	after     func()                               // undo side effects not under test
	immutable bool
	before    func()
}

func (s *listSys) growth(op listOp) int {
	switch op.kind {
	case "Add", "Insert":
		return 1
	case "AddAll", "InsertAll":
		if op.self {
			return len(s.model)
		}
		return len(op.el)
	}
	return 0
}

func (s *listSys) Enabled(o int) bool {
	op := s.ops[o]
	if len(s.model)+s.growth(op) > s.max {
		// a unique list does not grow by what it already has
		if !s.unique || len(listModel(s.model, op, true).next) > s.max {
			return false
		}
	}
	// indexes further out than one past the end add nothing
	if op.i > len(s.model)+1 || op.j > len(s.model)+1 {
		return false
	}
	return true
}

func (s *listSys) Key() string { return fmt.Sprint(s.model) }

func (s *listSys) val(e int) any {
	if s.vals != nil {
		return s.vals[e]
	}
	return s.elems[e]
}

func (s *listSys) name(x any) string {
	for i := range s.elems {
		if s.val(i) == x || s.elems[i] == x {
			return string(rune('a' + i))
		}
	}
	return fmt.Sprintf("?%T:%v", x, x)
}

func (s *listSys) apply(op listOp) (ret any) {
	l := s.list
	var el any
	if len(op.el) > 0 {
		el = s.elems[op.el[0]]
	}
	coll := func() ecore.Collection {
		if op.self {
			return l
		}
		d := make([]any, 0, len(op.el)+2)
		for _, e := range op.el {
			d = append(d, s.elems[e])
		}
		return ecore.NewBasicEList(d)
	}
	switch op.kind {
	case "Add":
		return l.Add(el)
	case "Insert":
		return l.Insert(op.i, el)
	case "AddAll":
		return l.AddAll(coll())
	case "InsertAll":
		return l.InsertAll(op.i, coll())
	case "Set":
		return l.Set(op.i, el)
	case "RemoveAt":
		return l.RemoveAt(op.i)
	case "Remove":
		return l.Remove(el)
	case "Move":
		return l.Move(op.i, op.j)
	case "MoveObject":
		l.MoveObject(op.i, el)
	case "RemoveRange":
		l.RemoveRange(op.i, op.j)
	case "RemoveAll":
		return l.RemoveAll(coll())
	case "Clear":
		l.Clear()
	}
	return nil
}

func (s *listSys) Step(o int, check bool) *mc.Viol {
	op := s.ops[o]
	r := listModel(s.model, op, s.unique)
	if s.immutable {
		r = modelResult{next: s.model, panics: true}
	}
	var ret any
	if s.before != nil {
		s.before()
	}
	p := mc.Panics(func() { ret = s.apply(op) })
	if check {
		switch {
		case r.may:
		case r.panics && p == "":
			return &mc.Viol{Key: op.kind + ":accepted", Msg: fmt.Sprintf("%s on %s must be rejected but returned %v", op.name, s.show(s.model), ret)}
		case !r.panics && p != "":
			return &mc.Viol{Key: op.kind + ":panic", Msg: fmt.Sprintf("%s on %s panicked: %s at %s", op.name, s.show(s.model), p, mc.LastStack())}
		}
		if r.checkRet && p == "" {
			ok := true
			switch want := r.ret.(type) {
			case bool:
				ok = ret == any(want)
			case int:
				ok = ret == s.val(want)
				r.ret = s.val(want)
			}
			if !ok {
				return &mc.Viol{Key: op.kind + ":return", Msg: fmt.Sprintf("%s on %s returned %v instead of %v", op.name, s.show(s.model), s.name(ret), r.ret)}
			}
		}
	}
	before := s.model
	s.model = r.next
	if check {
		if msg := s.observe(); msg != "" {
			return &mc.Viol{Key: op.kind + ":state", Msg: fmt.Sprintf("after %s on %s: %s", op.name, s.show(before), msg)}
		}
	}
	if s.extra != nil {
		if msg := s.extra(s.model, check); msg != "" && check {
			return &mc.Viol{Key: op.kind + ":view", Msg: fmt.Sprintf("after %s on %s: %s", op.name, s.show(before), msg)}
		}
	}
	if s.after != nil {
		s.after()
	}
	return nil
}

func (s *listSys) show(m []int) string {
	var b strings.Builder
	for _, e := range m {
		b.WriteByte(byte('a' + e))
	}
	return "[" + b.String() + "]"
}

func (s *listSys) observe() string { return s.observeList(s.list, s.model, s.val) }

// observeList compares every reading operation with the model.
func (s *listSys) observeList(l ecore.EList, model []int, val func(int) any) string {
	n := len(model)
	show := s.show(model)
	if l.Size() != n {
		return fmt.Sprintf("Size()=%d, list is %s", l.Size(), show)
	}
	if l.Empty() != (n == 0) {
		return fmt.Sprintf("Empty()=%v, list is %s", l.Empty(), show)
	}
	// raw iteration first: reading must not change what is read
	i := 0
	for x := range l.All() {
		if i >= n || x != val(model[i]) {
			return fmt.Sprintf("All() yields %v at %d, list is %s", s.name(x), i, show)
		}
		i++
	}
	if i != n {
		return fmt.Sprintf("All() yields %d elements, list is %s", i, show)
	}
	if n > 1 {
		i = 0
		for range l.All() {
			i++
			break
		}
		if i != 1 {
			return "All() did not stop"
		}
	}
	i = 0
	for it := l.Iterator(); it.HasNext(); i++ {
		if x := it.Next(); i >= n || x != val(model[i]) {
			return fmt.Sprintf("Iterator() yields %v at %d, list is %s", s.name(x), i, show)
		}
	}
	if i != n {
		return fmt.Sprintf("Iterator() yields %d elements, list is %s", i, show)
	}
	arr := l.ToArray()
	if len(arr) != n {
		return fmt.Sprintf("ToArray() has %d elements, list is %s", len(arr), show)
	}
	for i := range model {
		if x := l.Get(i); x != val(model[i]) {
			return fmt.Sprintf("Get(%d)=%v, list is %s", i, s.name(x), show)
		}
		if arr[i] != val(model[i]) {
			return fmt.Sprintf("ToArray()[%d]=%v, list is %s", i, s.name(arr[i]), show)
		}
	}
	for _, i := range []int{-1, n} {
		if mc.Panics(func() { l.Get(i) }) == "" {
			return fmt.Sprintf("Get(%d) accepted, list is %s", i, show)
		}
	}
	for e := range s.elems {
		want := idxOf(model, e)
		for _, x := range []any{val(e)} {
			if got := l.IndexOf(x); got != want {
				return fmt.Sprintf("IndexOf(%s)=%d, list is %s", s.name(x), got, show)
			}
			if got := l.Contains(x); got != (want >= 0) {
				return fmt.Sprintf("Contains(%s)=%v, list is %s", s.name(x), got, show)
			}
		}
	}
	return ""
}
