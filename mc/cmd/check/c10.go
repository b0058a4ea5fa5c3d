package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/uuid"
	"github.com/masagroup/soft.go/ecore"
	"github.com/oklog/ulid/v2"
	"verif/mc/mc"
)

// C10: identifier managers against two maps.

func init() {
	register(&mc.Check{ID: "C10", Level: "model_checking",
		Rule:        "every history of register, unregister, set-identifier (a fresh one, one of another object, a detached one, an invalid one, none, in every accepted form) and clear over up to three objects, up to the depth where no new state appears or the bound, for each manager; after every call every object and every identifier ever seen is looked up and compared with two maps.",
		Assumptions: []string{"objects stay alive (no reuse of the memory of a collected object)", "an identifier that is given to another object is taken away from the object that had it"},
		Items:       c10Items})
}

type idSys struct {
	kind     string
	m        ecore.EObjectIDManager
	objs     []ecore.EObject
	live     map[int]any
	detached map[int]any
	attr     []string // value of the identifier attribute (attribute manager)
	ids      []any    // every identifier ever seen
	fixed    map[string]any
	ops      []idOp
	next     int64
}

type idOp struct {
	name string
	kind string
	o    int
	arg  string // what identifier
	form string
}

func (s *idSys) attrID() ecore.EStructuralFeature { return s.objs[0].EClass().GetEIDAttribute() }

// resolve gives the identifier an operation uses, nil ok=false when there is none
func (s *idSys) id(arg string) (any, bool) {
	if strings.HasPrefix(arg, "of") {
		o := int(arg[2] - '0')
		if id, ok := s.live[o]; ok {
			return id, true
		}
		if id, ok := s.detached[o]; ok {
			return id, true
		}
		return nil, false
	}
	id, ok := s.fixed[arg]
	return id, ok
}

func (s *idSys) forms() []string {
	switch s.kind {
	case "uuid", "ulid":
		return []string{"value", "string", "bytes"}
	case "incremental":
		return []string{"value", "string", "int", "int32", "uint64"}
	}
	return []string{"value"}
}

func (s *idSys) form(id any, form string) any {
	switch v := id.(type) {
	case uuid.UUID:
		switch form {
		case "string":
			return v.String()
		case "bytes":
			return append([]byte{}, v[:]...)
		}
	case ulid.ULID:
		switch form {
		case "string":
			return v.String()
		case "bytes":
			return append([]byte{}, v[:]...)
		}
	case int64:
		switch form {
		case "string":
			return fmt.Sprint(v)
		case "int":
			return int(v)
		case "int32":
			return int32(v)
		case "uint64":
			return uint64(v)
		}
	}
	return id
}

func (s *idSys) Enabled(i int) bool {
	op := s.ops[i]
	if op.kind == "set" && op.arg != "bad" && op.arg != "nil" {
		_, ok := s.id(op.arg)
		return ok
	}
	return true
}

// Key: identifiers by order of first use, the incremental ones themselves
func (s *idSys) Key() string {
	names := map[any]string{}
	for n, id := range s.fixed {
		names[id] = n
	}
	name := func(id any) string {
		if s.kind == "incremental" || s.kind == "attribute" {
			return fmt.Sprint(id)
		}
		if n, ok := names[id]; ok {
			return n
		}
		n := fmt.Sprintf("#%d", len(names))
		names[id] = n
		return n
	}
	var b strings.Builder
	for i := range s.objs {
		fmt.Fprintf(&b, "%d:", i)
		if id, ok := s.live[i]; ok {
			b.WriteString("L" + name(id))
		} else if id, ok := s.detached[i]; ok {
			b.WriteString("D" + name(id))
		}
		if s.attr != nil {
			b.WriteString(" a" + s.attr[i])
		}
		b.WriteString(";")
	}
	if s.kind == "incremental" {
		fmt.Fprintf(&b, "next%d", s.next)
	}
	return b.String()
}

func (s *idSys) give(o int, id any) {
	for p, x := range s.live {
		if p != o && x == id {
			delete(s.live, p)
		}
	}
	s.live[o] = id
	delete(s.detached, o)
	s.see(id)
}

func (s *idSys) see(id any) {
	for _, x := range s.ids {
		if x == id {
			return
		}
	}
	s.ids = append(s.ids, id)
	if n, ok := id.(int64); ok && n >= s.next {
		s.next = n + 1
	}
}

func (s *idSys) Step(i int, check bool) *mc.Viol {
	op := s.ops[i]
	bad := func(f string, a ...any) *mc.Viol {
		return mkViol("ids:"+op.kind, "%s: %s", op.name, fmt.Sprintf(f, a...))
	}
	o := s.objs[op.o]
	var arg any
	var err error
	valid := true
	p := mc.Panics(func() {
		switch op.kind {
		case "register":
			s.m.Register(o)
		case "unregister":
			s.m.UnRegister(o)
		case "clear":
			s.m.Clear()
		case "attr":
			ecore.SetEObjectID(o, op.arg)
			s.attr[op.o] = op.arg
		case "set":
			switch op.arg {
			case "bad":
				valid = false
				switch s.kind {
				case "attribute":
					arg = 12
				default:
					arg = "not an identifier!"
				}
			case "nil":
				arg = nil
				valid = s.kind == "attribute" || s.kind == "incremental"
			default:
				id, _ := s.id(op.arg)
				arg = s.form(id, op.form)
			}
			err = s.m.SetID(o, arg)
		}
	})
	if p != "" {
		return bad("panicked: %s\n%s", p, mc.LastStack())
	}
	switch op.kind {
	case "register":
		if s.kind == "attribute" {
			delete(s.live, op.o)
			if s.attr[op.o] != "" {
				s.give(op.o, s.attr[op.o])
			}
			break
		}
		if _, ok := s.live[op.o]; ok {
			break
		}
		got := s.m.GetID(o)
		if got == nil {
			return bad("the object has no identifier afterwards")
		}
		if id, ok := s.detached[op.o]; ok && !s.used(id) {
			if got != id {
				return bad("the object has identifier %v, it had %v when it was detached", got, id)
			}
		} else {
			for p, id := range s.live {
				if id == got {
					return bad("the new object got identifier %v of object %d", got, p)
				}
			}
			for p, id := range s.detached {
				if id == got {
					return bad("the new object got identifier %v, which detached object %d keeps", got, p)
				}
			}
			for n, id := range s.fixed {
				_ = n
				if id == got && s.kind != "incremental" {
					return bad("the new object got identifier %v", got)
				}
			}
		}
		s.give(op.o, got)
	case "unregister":
		if id, ok := s.live[op.o]; ok {
			delete(s.live, op.o)
			if s.kind != "attribute" {
				s.detached[op.o] = id
			}
		}
	case "clear":
		s.live, s.detached = map[int]any{}, map[int]any{}
	case "set":
		if !valid {
			if err == nil {
				return bad("an invalid identifier was accepted")
			}
			break
		}
		if err != nil {
			return bad("gave the error %v", err)
		}
		if op.arg == "nil" {
			delete(s.live, op.o)
			if s.kind != "attribute" {
				delete(s.detached, op.o)
			} else {
				s.attr[op.o] = ""
			}
		} else {
			id, _ := s.id(op.arg)
			s.give(op.o, id)
			if s.kind == "attribute" {
				s.attr[op.o] = id.(string)
			}
		}
	}
	return s.agree(bad)
}

func (s *idSys) used(id any) bool {
	for _, x := range s.live {
		if x == id {
			return true
		}
	}
	return false
}

func (s *idSys) agree(bad func(string, ...any) *mc.Viol) *mc.Viol {
	owner := map[any]int{}
	for i, o := range s.objs {
		got := s.m.GetID(o)
		want := s.live[i]
		if got != want {
			return bad("object %d has identifier %v, expected %v", i, got, want)
		}
		if want != nil {
			owner[want] = i
		}
		if s.kind == "attribute" {
			if g := s.m.GetDetachedID(o); g != any(s.attr[i]) {
				return bad("GetDetachedID of object %d is %v, expected %q", i, g, s.attr[i])
			}
			if g := ecore.GetEObjectID(o); g != s.attr[i] {
				return bad("the identifier attribute of object %d is %q, expected %q", i, g, s.attr[i])
			}
		} else {
			if g := s.m.GetDetachedID(o); want == nil && g != s.detached[i] {
				return bad("GetDetachedID of object %d is %v, expected %v", i, g, s.detached[i])
			}
		}
	}
	for _, id := range append(append([]any{}, s.ids...), s.fixedIDs()...) {
		var want ecore.EObject
		if o, ok := owner[id]; ok {
			want = s.objs[o]
		}
		for _, f := range s.forms() {
			if got := s.m.GetEObject(s.form(id, f)); got != want {
				return bad("GetEObject(%v as %s) gives %v, expected %v", id, f, s.objIdx(got), s.objIdx(want))
			}
		}
	}
	for _, x := range []any{nil, "not an identifier!", 3.5} {
		if got := s.m.GetEObject(x); got != nil {
			return bad("GetEObject(%v) gives %v", x, s.objIdx(got))
		}
	}
	return nil
}

func (s *idSys) objIdx(o ecore.EObject) string {
	for i, x := range s.objs {
		if x == o {
			return fmt.Sprintf("object %d", i)
		}
	}
	if o == nil {
		return "nothing"
	}
	return "an unknown object"
}

func (s *idSys) fixedIDs() []any {
	var ks []string
	for k := range s.fixed {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []any
	for _, k := range ks {
		r = append(r, s.fixed[k])
	}
	return r
}

func newIDSys(kind string, n int) *idSys {
	m := newMM("http://ids", []cspec{{name: "N", feats: []fspec{{name: "id", typ: "string", isID: true}}}})
	return newIDSysOn(kind, n, m)
}

func newIDSysOn(kind string, n int, m *mm) *idSys {
	s := &idSys{kind: kind, live: map[int]any{}, detached: map[int]any{}}
	for i := 0; i < n; i++ {
		s.objs = append(s.objs, newObj(kDynamic, m.c("N"), nil))
	}
	switch kind {
	case "attribute":
		s.m = ecore.NewEObjectIDManagerImpl()
		s.attr = make([]string, n)
		s.fixed = map[string]any{"x": "x", "y": "y"}
	case "uuid":
		s.m = ecore.NewUUIDManager()
		s.fixed = map[string]any{"x": uuid.UUID{1}, "zero": uuid.UUID{}}
	case "ulid":
		s.m = ecore.NewULIDManager()
		s.fixed = map[string]any{"x": ulid.ULID{1}, "zero": ulid.ULID{}}
	case "incremental":
		s.m = ecore.NewIncrementalIDManager()
		s.fixed = map[string]any{"0": int64(0), "1": int64(1), "2": int64(2), "7": int64(7)}
	}
	for i := 0; i < n; i++ {
		s.ops = append(s.ops, idOp{name: fmt.Sprintf("register(%d)", i), kind: "register", o: i},
			idOp{name: fmt.Sprintf("unregister(%d)", i), kind: "unregister", o: i})
		args := []string{"bad", "nil"}
		var fx []string
		for k := range s.fixed {
			fx = append(fx, k)
		}
		sort.Strings(fx)
		args = append(args, fx...)
		for j := 0; j < n; j++ {
			args = append(args, fmt.Sprintf("of%d", j))
		}
		for _, a := range args {
			fs := []string{"value"}
			if a == "x" || a == "1" || a == "of0" {
				fs = s.forms()
			}
			for _, f := range fs {
				s.ops = append(s.ops, idOp{name: fmt.Sprintf("setID(%d, %s as %s)", i, a, f), kind: "set", o: i, arg: a, form: f})
			}
		}
		if kind == "attribute" {
			for _, a := range []string{"x", "y", ""} {
				s.ops = append(s.ops, idOp{name: fmt.Sprintf("attribute(%d)=%q", i, a), kind: "attr", o: i, arg: a})
			}
		}
	}
	s.ops = append(s.ops, idOp{name: "clear()", kind: "clear"})
	return s
}

func c10Items(tier string) []mc.Item {
	var items []mc.Item
	for _, kind := range []string{"attribute", "uuid", "ulid", "incremental"} {
		for _, n := range []int{2, 3} {
			items = append(items, mc.Item{Name: fmt.Sprintf("%s/%d", kind, n), Run: func(c *mc.Ctx) {
				m := newMM("http://ids", []cspec{{name: "N", feats: []fspec{{name: "id", typ: "string", isID: true}}}})
				s0 := newIDSysOn(kind, n, m)
				names := make([]string, len(s0.ops))
				for i, o := range s0.ops {
					names[i] = o.name
				}
				d, v := 8-n, 2
				if c.Thorough() {
					d, v = 12-2*n, 4
				}
				e := &mc.Explore{Ops: names, New: func() mc.Machine { return newIDSysOn(kind, n, m) }, MaxDepth: d, Variety: v}
				e.Run(c)
				c.Res.Traces = c.Res.Transitions
			}})
		}
	}
	return items
}
