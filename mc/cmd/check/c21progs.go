//go:build sched

package main

import (
	"iter"
	"maps"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/ssync"
)

// schedStore is a store whose accesses are atomic.
type schedStore struct {
	mutex ssync.Mutex
	data  map[slot][]any
	cont  map[ecore.EObject]ecore.EObject
	feat  map[ecore.EObject]ecore.EStructuralFeature
}

func newSchedStore() *schedStore {
	return &schedStore{data: map[slot][]any{}, cont: map[ecore.EObject]ecore.EObject{}, feat: map[ecore.EObject]ecore.EStructuralFeature{}}
}

type slot struct {
	o ecore.EObject
	f ecore.EStructuralFeature
}

func (s *schedStore) at(o ecore.EObject, f ecore.EStructuralFeature) slot { return slot{o, f} }

func (s *schedStore) AddRoot(object ecore.EObject)    {}
func (s *schedStore) RemoveRoot(object ecore.EObject) {}

func (s *schedStore) Get(o ecore.EObject, f ecore.EStructuralFeature, i int) any {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	d := s.data[s.at(o, f)]
	if i < 0 {
		if len(d) == 0 {
			return nil
		}
		i = 0
	}
	return d[i]
}

func (s *schedStore) Set(o ecore.EObject, f ecore.EStructuralFeature, i int, v any, need bool) any {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	k := s.at(o, f)
	if i < 0 {
		d := s.data[k]
		s.data[k] = []any{v}
		if len(d) == 0 {
			return nil
		}
		return d[0]
	}
	old := s.data[k][i]
	d := append([]any{}, s.data[k]...)
	d[i] = v
	s.data[k] = d
	return old
}

func (s *schedStore) IsSet(o ecore.EObject, f ecore.EStructuralFeature) bool {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	return len(s.data[s.at(o, f)]) > 0
}

func (s *schedStore) UnSet(o ecore.EObject, f ecore.EStructuralFeature) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	delete(s.data, s.at(o, f))
}

func (s *schedStore) IsEmpty(o ecore.EObject, f ecore.EStructuralFeature) bool {
	return s.Size(o, f) == 0
}

func (s *schedStore) Size(o ecore.EObject, f ecore.EStructuralFeature) int {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	return len(s.data[s.at(o, f)])
}

func (s *schedStore) Contains(o ecore.EObject, f ecore.EStructuralFeature, v any) bool {
	return s.IndexOf(o, f, v) >= 0
}

func (s *schedStore) IndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	for i, x := range s.data[s.at(o, f)] {
		if x == v {
			return i
		}
	}
	return -1
}

func (s *schedStore) LastIndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	d := s.data[s.at(o, f)]
	for i := len(d) - 1; i >= 0; i-- {
		if d[i] == v {
			return i
		}
	}
	return -1
}

func (s *schedStore) insert(k slot, i int, v ...any) {
	d := append([]any{}, s.data[k][:i]...)
	d = append(d, v...)
	s.data[k] = append(d, s.data[k][i:]...)
}

func (s *schedStore) remove(k slot, i int) any {
	v := s.data[k][i]
	d := append([]any{}, s.data[k][:i]...)
	s.data[k] = append(d, s.data[k][i+1:]...)
	return v
}

func (s *schedStore) Add(o ecore.EObject, f ecore.EStructuralFeature, i int, v any) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	s.insert(s.at(o, f), i, v)
}

func (s *schedStore) AddAll(o ecore.EObject, f ecore.EStructuralFeature, i int, c ecore.Collection) {
	var l []any
	for v := range c.All() {
		l = append(l, v)
	}
	s.mutex.Lock()
	defer s.mutex.Unlock()
	s.insert(s.at(o, f), i, l...)
}

func (s *schedStore) Remove(o ecore.EObject, f ecore.EStructuralFeature, i int, need bool) any {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	return s.remove(s.at(o, f), i)
}

func (s *schedStore) Move(o ecore.EObject, f ecore.EStructuralFeature, from, to int, need bool) any {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	k := s.at(o, f)
	v := s.remove(k, from)
	s.insert(k, to, v)
	return v
}

func (s *schedStore) Clear(o ecore.EObject, f ecore.EStructuralFeature) { s.UnSet(o, f) }

func (s *schedStore) SetContainer(o, c ecore.EObject, f ecore.EStructuralFeature) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	s.cont[o], s.feat[o] = c, f
}

func (s *schedStore) GetContainer(o ecore.EObject) (ecore.EObject, ecore.EStructuralFeature) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	return s.cont[o], s.feat[o]
}

func (s *schedStore) All(o ecore.EObject, f ecore.EStructuralFeature) iter.Seq[any] {
	return func(yield func(any) bool) {
		for _, v := range s.ToArray(o, f) {
			if !yield(v) {
				return
			}
		}
	}
}

func (s *schedStore) ToArray(o ecore.EObject, f ecore.EStructuralFeature) []any {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	return append([]any{}, s.data[s.at(o, f)]...)
}

func vals(v ...any) []any { return v }

func schedFamilies(thorough bool) []*sfamily {
	var fs []*sfamily
	fs = append(fs, idFamilies(thorough)...)
	fs = append(fs, classFamilies(thorough)...)
	fs = append(fs, mapFamilies(thorough)...)
	fs = append(fs, storeFamilies(thorough)...)
	fs = append(fs, treeFamilies(thorough)...)
	return fs
}

func idFamilies(thorough bool) []*sfamily {
	var fs []*sfamily
	for _, kind := range []string{"incremental", "uuid", "ulid"} {
		ids := []any{int64(5), int64(6)}
		switch kind {
		case "uuid":
			ids = []any{"11111111-1111-1111-1111-111111111111", "22222222-2222-2222-2222-222222222222"}
		case "ulid":
			ids = []any{"01ARZ3NDEKTSV4RRFFQ69G5FAV", "01BX5ZZKBKACTAV9WEVGEMMVRZ"}
		}
		id := func(v any) any { return idOf{v} }
		name := func(e *senv, o ecore.EObject) string {
			for i, x := range e.objs {
				if x == o {
					return string(rune('a' + i))
				}
			}
			return "none"
		}
		f := &sfamily{name: "ids/" + kind, inits: []string{"", "a registered", "a left"}, rename: true, shapes: []sshape{{[]int{2, 2}, 1}, {[]int{1, 1, 1}, 2}}}
		if thorough {
			f.shapes = []sshape{{[]int{2, 2}, 3}, {[]int{1, 1, 1}, 3}, {[]int{2, 1, 1}, 1}}
		}
		f.make = func(init int) *senv {
			e := &senv{}
			switch kind {
			case "incremental":
				e.mgr = ecore.NewIncrementalIDManager()
			case "uuid":
				e.mgr = ecore.NewUUIDManager()
			case "ulid":
				e.mgr = ecore.NewULIDManager()
			}
			for range 2 {
				e.objs = append(e.objs, ecore.GetFactory().CreateEObject())
			}
			if init > 0 {
				e.mgr.Register(e.objs[0])
			}
			if init > 1 {
				e.mgr.UnRegister(e.objs[0])
			}
			return e
		}
		f.final = func(e *senv) any {
			var l []any
			for _, o := range e.objs {
				v := e.mgr.GetID(o)
				l = append(l, id(v), id(e.mgr.GetDetachedID(o)))
				if v != nil {
					l = append(l, name(e, e.mgr.GetEObject(v)))
				}
			}
			for _, v := range ids {
				l = append(l, name(e, e.mgr.GetEObject(v)))
			}
			return l
		}
		for i, n := range []string{"a", "b"} {
			f.ops = append(f.ops,
				sop{name: "Register(" + n + ")", run: func(e *senv) any { e.mgr.Register(e.objs[i]); return "" }},
				sop{name: "GetID(" + n + ")", run: func(e *senv) any { return id(e.mgr.GetID(e.objs[i])) }},
				sop{name: "SetID(" + n + ",5)", run: func(e *senv) any { return vals(e.mgr.SetID(e.objs[i], ids[0])) }},
			)
		}
		f.ops = append(f.ops,
			sop{name: "UnRegister(a)", run: func(e *senv) any { e.mgr.UnRegister(e.objs[0]); return "" }},
			sop{name: "GetDetachedID(a)", run: func(e *senv) any { return id(e.mgr.GetDetachedID(e.objs[0])) }},
			sop{name: "GetEObject(5)", run: func(e *senv) any { return name(e, e.mgr.GetEObject(ids[0])) }},
			sop{name: "Clear()", run: func(e *senv) any { e.mgr.Clear(); return "" }},
		)
		fs = append(fs, f)
	}
	return fs
}

// schedMM is a small metamodel, freshly made: nothing is computed yet.
func schedMM() *mm {
	m := newMM("http://sched", []cspec{
		{name: "Base", feats: []fspec{
			{name: "id", typ: "string", isID: true},
			{name: "bref", typ: "Base", ref: true},
			{name: "bkids", typ: "Base", ref: true, many: true, cont: true},
		}},
		{name: "Node", supers: []string{"Base"}, feats: []fspec{
			{name: "num", typ: "int", def: "3"},
			{name: "nums", typ: "int", many: true, nonUnique: true},
			{name: "kids", typ: "Node", ref: true, many: true, cont: true, opp: "Node.parent"},
			{name: "parent", typ: "Node", ref: true, opp: "Node.kids"},
		}},
	})
	for _, c := range []string{"Base", "Node"} {
		o := ecore.GetFactory().CreateEOperation()
		o.SetName("run")
		m.classes[c].GetEOperations().Add(o)
	}
	return m
}

func classFamilies(thorough bool) []*sfamily {
	f := &sfamily{name: "class", inits: []string{"", "known"}, shapes: []sshape{{[]int{1, 1}, 1}}}
	if thorough {
		f.shapes = []sshape{{[]int{1, 1}, 1}, {[]int{1, 1}, 2}}
	}
	f.make = func(init int) *senv {
		e := &senv{m: schedMM()}
		if init == 1 {
			for _, o := range f.ops {
				o.run(e)
			}
		}
		return e
	}
	f.final = func(e *senv) any {
		var l []any
		for _, o := range f.ops {
			l = append(l, runOp(o, e))
		}
		return l
	}
	add := func(name string, run func(e *senv) any) {
		f.ops = append(f.ops, sop{name: name, run: run, long: name == "build a model"})
	}
	for _, c := range []string{"Base", "Node"} {
		for _, g := range []struct {
			name string
			get  func(c ecore.EClass) ecore.EList
		}{
			{"GetEAllStructuralFeatures", ecore.EClass.GetEAllStructuralFeatures},
			{"GetEAllAttributes", ecore.EClass.GetEAllAttributes},
			{"GetEAllReferences", ecore.EClass.GetEAllReferences},
			{"GetEAllContainments", ecore.EClass.GetEAllContainments},
			{"GetEAllOperations", ecore.EClass.GetEAllOperations},
			{"GetEAllSuperTypes", ecore.EClass.GetEAllSuperTypes},
			{"GetEAttributes", ecore.EClass.GetEAttributes},
			{"GetEReferences", ecore.EClass.GetEReferences},
			{"GetEContainmentFeatures", ecore.EClass.GetEContainmentFeatures},
			{"GetECrossReferenceFeatures", ecore.EClass.GetECrossReferenceFeatures},
			{"GetEStructuralFeatures", ecore.EClass.GetEStructuralFeatures},
			{"GetEOperations", ecore.EClass.GetEOperations},
			{"GetESuperTypes", ecore.EClass.GetESuperTypes},
		} {
			add(c+"."+g.name, func(e *senv) any { return elems(g.get(e.m.classes[c])) })
		}
		add(c+".GetEStructuralFeatureFromName", func(e *senv) any {
			return vals(e.m.classes[c].GetEStructuralFeatureFromName("id"), e.m.classes[c].GetEStructuralFeatureFromName("num"))
		})
		add(c+".GetEIDAttribute", func(e *senv) any { return e.m.classes[c].GetEIDAttribute() })
		add(c+".GetFeatureID", func(e *senv) any {
			f := e.m.f(c + "." + map[string]string{"Base": "bkids", "Node": "kids"}[c])
			return vals(e.m.classes[c].GetFeatureID(f), e.m.classes[c].GetFeatureCount(), e.m.classes[c].GetEStructuralFeature(1))
		})
		add(c+".GetOperationID", func(e *senv) any {
			cl := e.m.classes[c]
			o := cl.GetEOperation(0)
			return vals(cl.GetOperationCount(), cl.GetOperationID(o), cl.GetOverride(o))
		})
		add(c+".IsSuperTypeOf", func(e *senv) any {
			return vals(e.m.classes["Base"].IsSuperTypeOf(e.m.classes[c]), e.m.classes["Node"].IsSuperTypeOf(e.m.classes[c]))
		})
		add(c+".GetClassifierID", func(e *senv) any { return vals(e.m.classes[c].GetClassifierID()) })
		add("GetEClassifier("+c+")", func(e *senv) any { return e.m.pkg.GetEClassifier(c) })
	}
	add("GetEClassifier(none)", func(e *senv) any { return e.m.pkg.GetEClassifier("none") })
	for _, n := range []string{"Base.id", "Node.num", "Node.nums", "Node.kids", "Node.parent"} {
		add(n+" details", func(e *senv) any {
			f := e.m.f(n)
			s := vals(f.GetFeatureID(), f.IsMany(), f.IsRequired(), f.GetDefaultValue(), f.GetEType(), f.GetEContainingClass())
			switch f := f.(type) {
			case ecore.EReference:
				s = append(s, f.IsContainer(), f.GetEReferenceType(), f.GetEOpposite())
			case ecore.EAttribute:
				s = append(s, f.GetEAttributeType())
			}
			return s
		})
	}
	// models of their own
	add("build a model", func(e *senv) any {
		node := e.m.classes["Node"]
		a := e.m.pkg.GetEFactoryInstance().Create(node)
		b := e.m.pkg.GetEFactoryInstance().Create(node)
		num, kids, nums := node.GetEStructuralFeatureFromName("num"), node.GetEStructuralFeatureFromName("kids"), node.GetEStructuralFeatureFromName("nums")
		s := vals(a.EGet(num), a.EIsSet(num))
		a.ESet(num, 5)
		a.EGet(nums).(ecore.EList).Add(7)
		a.EGet(kids).(ecore.EList).Add(b)
		s = append(s, a.EGet(num), b.EContainer() == a, b.EContainingFeature(), b.EContainmentFeature(), a.EContents().Size())
		cp := ecore.Copy(a)
		return append(s, ecore.Equals(a, cp))
	})
	return []*sfamily{f}
}

func mapFamilies(thorough bool) []*sfamily {
	var fs []*sfamily
	for _, kind := range []string{"basic", "objects"} {
		f := &sfamily{name: "map/" + kind, inits: []string{"", "read"}, shapes: []sshape{{[]int{1, 1}, 2}, {[]int{2, 1}, 1}, {[]int{1, 1, 1}, 1}}}
		if thorough {
			f.shapes = []sshape{{[]int{1, 1}, 3}, {[]int{2, 1}, 2}, {[]int{1, 1, 1}, 2}}
		}
		f.make = func(init int) *senv {
			e := &senv{}
			if kind == "basic" {
				e.emap = ecore.NewBasicEMap()
				l := e.emap.(ecore.EList)
				l.Add(&plainEntry{key: "a", value: 1})
				l.Add(&plainEntry{key: "b", value: 2})
			} else {
				m := schedMM()
				m.add(m.pkg, "", []cspec{{name: "E", mapEntry: true, feats: []fspec{{name: "key", typ: "string"}, {name: "value", typ: "int"}}}})
				e.m = m
				e.emap = ecore.NewBasicEObjectMap(m.classes["E"], nil, 0, -1, false)
				e.emap.Put("a", 1)
				e.emap.Put("b", 2)
			}
			if init == 1 {
				e.emap.GetValue("a")
			}
			return e
		}
		f.final = func(e *senv) any { return vals(e.emap.GetValue("a"), e.emap.GetValue("b"), e.emap.Size()) }
		f.ops = []sop{
			{name: "GetValue(a)", run: func(e *senv) any { return vals(e.emap.GetValue("a")) }},
			{name: "GetValue(c)", run: func(e *senv) any { return vals(e.emap.GetValue("c")) }},
			{name: "ContainsKey(b)", run: func(e *senv) any { return vals(e.emap.ContainsKey("b")) }},
			{name: "ContainsValue(2)", run: func(e *senv) any { return vals(e.emap.ContainsValue(2)) }},
			{name: "Size()", run: func(e *senv) any { return vals(e.emap.Size()) }},
			{name: "ToMap()", run: func(e *senv) any { return maps.Clone(e.emap.ToMap()) }},
			{name: "Get(1)", run: func(e *senv) any { return e.emap.Get(1) }},
			{name: "All()", run: func(e *senv) any { return elems(e.emap) }},
		}
		fs = append(fs, f)
	}
	return fs
}

type plainEntry struct{ key, value any }

func (e *plainEntry) GetKey() any    { return e.key }
func (e *plainEntry) SetKey(v any)   { e.key = v }
func (e *plainEntry) GetValue() any  { return e.value }
func (e *plainEntry) SetValue(v any) { e.value = v }

// storeFamilies: an object whose values are in a store, used by several
// goroutines. Every call is atomic by itself; calls are made atomic together
// by locking the object.
func storeFamilies(thorough bool) []*sfamily {
	var fs []*sfamily
	for _, kind := range []string{"store", "store-cache", "none"} {
		f := &sfamily{name: "object/" + kind, inits: []string{"", "used"}, shapes: []sshape{{[]int{1, 1}, 2}}}
		if thorough {
			f.shapes = []sshape{{[]int{1, 1}, 3}, {[]int{2, 1}, 1}}
		}
		num := func(e *senv) ecore.EStructuralFeature { return e.m.f("Node.num") }
		nums := func(e *senv) ecore.EList { return e.obj.EGet(e.m.f("Node.nums")).(ecore.EList) }
		f.make = func(init int) *senv {
			e := &senv{m: schedMM()}
			o := ecore.NewEStoreEObjectImpl(kind == "store-cache")
			o.SetEClass(e.m.classes["Node"])
			e.obj = o
			e.m.classes["Node"].GetEStructuralFeatureFromName("num")
			e.m.f("Node.num").GetDefaultValue()
			if kind != "none" {
				e.store = newSchedStore()
				e.store.data[slot{o, e.m.f("Node.num")}] = []any{1}
				e.store.data[slot{o, e.m.f("Node.nums")}] = []any{1, 2}
				o.SetEStore(e.store)
			} else {
				o.ESet(e.m.f("Node.num"), 1)
			}
			if init == 1 {
				o.EGet(num(e))
				nums(e).Size()
				if kind == "none" {
					nums(e).Add(1)
					nums(e).Add(2)
				}
			}
			return e
		}
		f.final = func(e *senv) any {
			l := nums(e)
			r := vals(e.obj.EGet(num(e)), e.obj.EIsSet(num(e)), elems(l), l.Size())
			if e.store != nil {
				r = append(r, e.store.ToArray(e.obj, num(e)), e.store.ToArray(e.obj, e.m.f("Node.nums")))
			}
			return r
		}
		// changing the store is only atomic for the lists there are
		f.allowed = func(init int, prog [][]int) bool {
			n := 0
			for _, t := range prog {
				for _, o := range t {
					if strings.HasPrefix(f.ops[o].name, "SetEStore") {
						n++
					}
				}
			}
			return n == 0 || n == 1 && init == 1
		}
		store := func(e *senv) ecore.EStoreEObject { return e.obj.(ecore.EStoreEObject) }
		f.ops = []sop{
			{name: "EGet(num)", run: func(e *senv) any { return e.obj.EGet(num(e)) }},
			{name: "EIsSet(num)", run: func(e *senv) any { return e.obj.EIsSet(num(e)) }},
			{name: "ESet(num,7)", run: func(e *senv) any { e.obj.ESet(num(e), 7); return "" }},
			{name: "EUnset(num)", run: func(e *senv) any { e.obj.EUnset(num(e)); return "" }},
			{name: "SetCache(true)", run: func(e *senv) any { store(e).SetCache(true); return "" }},
			{name: "SetCache(false)", run: func(e *senv) any { store(e).SetCache(false); return "" }},
			{name: "SetEStore(nil)", run: func(e *senv) any { store(e).SetEStore(nil); return "" }},
			{name: "SetEStore(store)", run: func(e *senv) any {
				if e.store != nil {
					store(e).SetEStore(e.store)
				}
				return ""
			}},
			{name: "nums.Move(0,1)", run: func(e *senv) any { return nums(e).Move(0, 1) }},
			{name: "nums.Size()", run: func(e *senv) any { return nums(e).Size() }},
			{name: "nums.Get(1)", run: func(e *senv) any { return nums(e).Get(1) }},
			{name: "nums.Contains(7)", run: func(e *senv) any { return nums(e).Contains(7) }},
			{name: "nums.IndexOf(2)", run: func(e *senv) any { return nums(e).IndexOf(2) }},
			{name: "nums.ToArray()", run: func(e *senv) any { return nums(e).ToArray() }},
			{name: "nums.All()", run: func(e *senv) any { return elems(nums(e)) }},
			{name: "nums.Add(7)", run: func(e *senv) any { return nums(e).Add(7) }},
			{name: "nums.Insert(0,8)", run: func(e *senv) any { return nums(e).Insert(0, 8) }},
			{name: "nums.Set(0,9)", run: func(e *senv) any { return nums(e).Set(0, 9) }},
			{name: "nums.RemoveAt(0)", run: func(e *senv) any { return nums(e).RemoveAt(0) }},
			{name: "nums.Clear()", run: func(e *senv) any { nums(e).Clear(); return "" }},
			{name: "locked: add a 7 unless there is one", run: func(e *senv) any {
				store(e).Lock()
				defer store(e).Unlock()
				l := nums(e)
				if l.Contains(7) {
					return false
				}
				return l.Add(7)
			}},
			{name: "locked: num = size", run: func(e *senv) any {
				store(e).Lock()
				defer store(e).Unlock()
				e.obj.ESet(num(e), nums(e).Size())
				return e.obj.EGet(num(e))
			}},
		}
		fs = append(fs, f)
	}
	return fs
}

// treeFamilies: several goroutines read a tree of objects whose values are in
// a store.
func treeFamilies(thorough bool) []*sfamily {
	var fs []*sfamily
	for _, kind := range []string{"store", "store-cache"} {
		f := &sfamily{name: "tree/" + kind, inits: []string{"", "used"}, shapes: []sshape{{[]int{1, 1}, 1}}}
		if thorough {
			f.shapes = []sshape{{[]int{1, 1}, 2}, {[]int{1, 1, 1}, 1}}
			f.allowed = func(init int, prog [][]int) bool { return len(prog) < 3 || init == 0 && kind == "store-cache" }
		}
		f.make = func(init int) *senv {
			e := &senv{m: schedMM(), store: newSchedStore()}
			node := e.m.classes["Node"]
			for _, x := range e.m.classes["Node"].GetEAllStructuralFeatures().ToArray() {
				x.(ecore.EStructuralFeature).GetDefaultValue()
			}
			node.GetEStructuralFeatureFromName("num")
			node.GetEContainmentFeatures()
			node.GetECrossReferenceFeatures()
			for range 3 {
				o := ecore.NewEStoreEObjectImpl(kind == "store-cache")
				o.SetEClass(node)
				e.objs = append(e.objs, o)
			}
			a, b, d := e.objs[0], e.objs[1], e.objs[2]
			kids, bkids, parent := e.m.f("Node.kids"), e.m.f("Base.bkids"), e.m.f("Node.parent")
			st := e.store
			st.data[slot{a, kids}] = []any{b}
			st.data[slot{b, parent}] = []any{a}
			st.data[slot{a, bkids}] = []any{d}
			st.data[slot{b, e.m.f("Node.nums")}] = []any{1, 2}
			st.data[slot{b, e.m.f("Base.bref")}] = []any{d}
			st.cont[b], st.feat[b] = a, kids
			st.cont[d], st.feat[d] = a, bkids
			for _, o := range e.objs {
				o.(ecore.EStoreEObject).SetEStore(st)
			}
			if init == 1 {
				for _, o := range f.ops {
					runOp(o, e)
				}
			}
			return e
		}
		name := func(e *senv, v any) any {
			for i, x := range e.objs {
				if v == x {
					return string(rune('a' + i))
				}
			}
			if v == nil {
				return nil
			}
			return "?"
		}
		names := func(e *senv, l ecore.Collection) any {
			r := []any{}
			for v := range l.All() {
				r = append(r, name(e, v))
			}
			return r
		}
		f.ops = []sop{
			{name: "b.EContainer", run: func(e *senv) any { return name(e, e.objs[1].EContainer()) }},
			{name: "d.EContainer", run: func(e *senv) any { return name(e, e.objs[2].EContainer()) }},
			{name: "a.EContainer", run: func(e *senv) any { return name(e, e.objs[0].EContainer()) }},
			{name: "b.EContainingFeature", run: func(e *senv) any { return e.objs[1].EContainingFeature() }},
			{name: "d.EContainmentFeature", run: func(e *senv) any { return e.objs[2].EContainmentFeature() }},
			{name: "b.EGet(parent)", run: func(e *senv) any { return name(e, e.objs[1].EGet(e.m.f("Node.parent"))) }},
			{name: "b.EIsSet(parent)", run: func(e *senv) any { return e.objs[1].EIsSet(e.m.f("Node.parent")) }},
			{name: "b.EGet(bref)", run: func(e *senv) any { return name(e, e.objs[1].EGet(e.m.f("Base.bref"))) }},
			{name: "b.EGet(nums)", run: func(e *senv) any { return elems(e.objs[1].EGet(e.m.f("Node.nums")).(ecore.EList)) }},
			{name: "a.EGet(kids)", run: func(e *senv) any { return names(e, e.objs[0].EGet(e.m.f("Node.kids")).(ecore.EList)) }},
			{name: "a.EGet(bkids)[0]", run: func(e *senv) any { return name(e, e.objs[0].EGet(e.m.f("Base.bkids")).(ecore.EList).Get(0)) }},
			{name: "a.EContents", run: func(e *senv) any { return names(e, e.objs[0].EContents()) }},
			{name: "b.ECrossReferences", run: func(e *senv) any { return names(e, e.objs[1].ECrossReferences()) }},
			{name: "a.EAllContents", run: func(e *senv) any {
				r := []any{}
				for it := e.objs[0].EAllContents(); it.HasNext(); {
					r = append(r, name(e, it.Next()))
				}
				return r
			}},
			{name: "b.EResource", run: func(e *senv) any { return e.objs[1].EResource() == nil }},
			{name: "b.EClass", run: func(e *senv) any { return e.objs[1].EClass() }},
			{name: "b.EIsProxy", run: func(e *senv) any { return e.objs[1].EIsProxy() }},
			{name: "GetURI(b)", run: func(e *senv) any { return ecore.GetURI(e.objs[1]).String() }},
			{name: "IsAncestor(a,b)", run: func(e *senv) any { return ecore.IsAncestor(e.objs[0], e.objs[1]) }},
			{name: "Equals(b,d)", run: func(e *senv) any { return ecore.Equals(e.objs[1], e.objs[2]) }},
			{name: "Copy(b)", run: func(e *senv) any { return ecore.Copy(e.objs[1]).EIsSet(e.m.f("Node.num")) }},
		}
		f.final = func(e *senv) any {
			var l []any
			for _, o := range f.ops {
				l = append(l, runOp(o, e))
			}
			return l
		}
		fs = append(fs, f)
	}
	return fs
}
