package main

import (
	"iter"
	"strconv"

	"github.com/masagroup/soft.go/ecore"
)

// ---------------------------------------------------------------------------
// dynamic metamodels

type fspec struct {
	name       string
	typ        string // attribute: data type name; reference: class name
	ref        bool
	many       bool
	cont       bool
	opp        string // opposite feature "Class.feature"
	noResolve  bool
	nonUnique  bool
	transient  bool
	volatile   bool
	unsettable bool
	isID       bool
	def        string
	dtyp       ecore.EDataType // data type of a package of the model
}

type cspec struct {
	name     string
	supers   []string
	abstract bool
	mapEntry bool
	feats    []fspec
}

type mm struct {
	pkg     ecore.EPackage
	other   ecore.EPackage // a second package, if any
	classes map[string]ecore.EClass
	feats   map[string]ecore.EStructuralFeature // "Class.feature"
}

func (m *mm) f(name string) ecore.EStructuralFeature {
	f := m.feats[name]
	if f == nil {
		panic("no feature " + name)
	}
	return f
}

func (m *mm) c(name string) ecore.EClass { return m.classes[name] }

func dataType(name string) ecore.EDataType {
	p := ecore.GetPackage()
	switch name {
	case "string":
		return p.GetEString()
	case "int":
		return p.GetEInt()
	case "bool":
		return p.GetEBoolean()
	case "float64":
		return p.GetEDouble()
	case "float32":
		return p.GetEFloat()
	case "int64":
		return p.GetELong()
	case "int16":
		return p.GetEShort()
	case "byte":
		return p.GetEByte()
	case "bytes":
		return p.GetEByteArray()
	case "date":
		return p.GetEDate()
	case "char":
		return p.GetEChar()
	case "bigint":
		return p.GetEBigInteger()
	}
	return nil
}

func newMM(nsURI string, cs []cspec) *mm {
	m := &mm{classes: map[string]ecore.EClass{}, feats: map[string]ecore.EStructuralFeature{}}
	m.pkg = newPkg("p", nsURI)
	m.add(m.pkg, "", cs)
	return m
}

func newPkg(name, nsURI string) ecore.EPackage {
	p := ecore.GetFactory().CreateEPackage()
	p.SetName(name)
	p.SetNsPrefix("p")
	p.SetNsURI(nsURI)
	p.SetEFactoryInstance(newPkgFactory(p))
	return p
}

// mmKeep, when there is one, limits the features that classes get.
var mmKeep map[string]bool

// add puts classes in a package; they are known by their name after a prefix.
func (m *mm) add(pkg ecore.EPackage, prefix string, cs []cspec) {
	fac := ecore.GetFactory()
	for _, c := range cs {
		e := fac.CreateEClass()
		e.SetName(c.name)
		e.SetAbstract(c.abstract)
		if c.mapEntry {
			e.SetInstanceClassName("java.util.Map$Entry")
		}
		m.classes[prefix+c.name] = e
		pkg.GetEClassifiers().Add(e)
	}
	for _, c := range cs {
		for _, s := range c.supers {
			m.classes[prefix+c.name].GetESuperTypes().Add(m.classes[s])
		}
	}
	for _, c := range cs {
		e := m.classes[prefix+c.name]
		for _, f := range c.feats {
			if mmKeep != nil && !mmKeep[f.name] {
				continue
			}
			var sf ecore.EStructuralFeature
			if f.ref {
				r := fac.CreateEReference()
				r.SetContainment(f.cont)
				r.SetResolveProxies(!f.noResolve)
				if f.typ == "EObject" {
					r.SetEType(ecore.GetPackage().GetEObject())
				} else {
					r.SetEType(m.classes[f.typ])
				}
				sf = r
			} else {
				a := fac.CreateEAttribute()
				a.SetID(f.isID)
				if f.dtyp != nil {
					a.SetEType(f.dtyp)
				} else {
					a.SetEType(dataType(f.typ))
				}
				if f.def != "" {
					a.SetDefaultValueLiteral(f.def)
				}
				sf = a
			}
			sf.SetName(f.name)
			sf.SetUnique(!f.nonUnique)
			sf.SetTransient(f.transient)
			sf.SetUnsettable(f.unsettable)
			if f.many {
				sf.SetUpperBound(-1)
			}
			e.GetEStructuralFeatures().Add(sf)
			m.feats[prefix+c.name+"."+f.name] = sf
		}
	}
	for _, c := range cs {
		for _, f := range c.feats {
			if f.opp != "" && (mmKeep == nil || mmKeep[f.name]) {
				m.f(prefix + c.name + "." + f.name).(ecore.EReference).SetEOpposite(m.f(f.opp).(ecore.EReference))
			}
		}
	}
}

func newPkgFactory(p ecore.EPackage) ecore.EFactory {
	f := ecore.GetFactory().CreateEFactory()
	return f
}

// ---------------------------------------------------------------------------
// object implementations

const (
	kDynamic   = "dynamic"
	kReflect   = "reflective"
	kBasic     = "basic"
	kCompact   = "compact"
	kCompactC  = "compactcontainer"
	kStore     = "estore-nostore"
	kStoreC    = "estore-nostore-cache"
	kStoreMem  = "estore-mem"
	kStoreMemC = "estore-mem-cache"
)

var allKinds = []string{kDynamic, kReflect, kBasic, kCompact, kCompactC, kStore, kStoreC, kStoreMem, kStoreMemC}

type dynProps struct{ props []any }

func (d *dynProps) grow(i int) {
	for len(d.props) <= i {
		d.props = append(d.props, nil)
	}
}
func (d *dynProps) EDynamicGet(i int) any    { d.grow(i); return d.props[i] }
func (d *dynProps) EDynamicSet(i int, v any) { d.grow(i); d.props[i] = v }
func (d *dynProps) EDynamicUnset(i int)      { d.grow(i); d.props[i] = nil }
func (d *dynProps) EDynamicIsSet(i int) bool {
	d.grow(i)
	if l, ok := d.props[i].(ecore.EList); ok {
		return !l.Empty()
	}
	return d.props[i] != nil
}

type basicObj struct {
	ecore.BasicEObjectImpl
	dynProps
	class ecore.EClass
}

func (o *basicObj) EClass() ecore.EClass                         { return o.class }
func (o *basicObj) EStaticFeatureCount() int                     { return 0 }
func (o *basicObj) EDynamicProperties() ecore.EDynamicProperties { return o }
func (o *basicObj) EFeatureID(f ecore.EStructuralFeature) int    { return o.class.GetFeatureID(f) }

type compactObj struct {
	ecore.CompactEObjectImpl
	dynProps
}

func (o *compactObj) EStaticFeatureCount() int                     { return 0 }
func (o *compactObj) EDynamicProperties() ecore.EDynamicProperties { return o }

type compactCObj struct {
	ecore.CompactEObjectContainer
	dynProps
}

func (o *compactCObj) EStaticFeatureCount() int                     { return 0 }
func (o *compactCObj) EDynamicProperties() ecore.EDynamicProperties { return o }

// newObj makes an object of the given implementation kind.
func newObj(kind string, c ecore.EClass, st *memStore) ecore.EObject {
	switch kind {
	case kDynamic:
		o := ecore.NewDynamicEObjectImpl()
		o.SetEClass(c)
		return o
	case kReflect:
		o := ecore.NewReflectiveEObjectImpl()
		o.SetEClass(c)
		return o
	case kBasic:
		o := &basicObj{class: c}
		o.SetInterfaces(o)
		o.Initialize()
		return o
	case kCompact:
		o := &compactObj{}
		o.SetInterfaces(o)
		o.Initialize()
		o.SetEClass(c)
		return o
	case kCompactC:
		o := &compactCObj{}
		o.SetInterfaces(o)
		o.Initialize()
		o.SetEClass(c)
		return o
	case kStore, kStoreC:
		o := ecore.NewEStoreEObjectImpl(kind == kStoreC)
		o.SetEClass(c)
		return o
	case kStoreMem, kStoreMemC:
		o := ecore.NewEStoreEObjectImpl(kind == kStoreMemC)
		o.SetEClass(c)
		o.SetEStore(st)
		return o
	}
	panic(kind)
}

// ---------------------------------------------------------------------------
// memStore is the boring reference implementation of the store contract.

type memKey struct {
	o ecore.EObject
	f ecore.EStructuralFeature
}

type memCont struct {
	c ecore.EObject
	f ecore.EStructuralFeature
}

type memStore struct {
	single map[memKey]any
	set    map[memKey]bool
	lists  map[memKey][]any
	cont   map[ecore.EObject]memCont
	roots  []ecore.EObject
}

func newMemStore() *memStore {
	return &memStore{single: map[memKey]any{}, set: map[memKey]bool{}, lists: map[memKey][]any{}, cont: map[ecore.EObject]memCont{}}
}

func (s *memStore) AddRoot(o ecore.EObject) { s.roots = append(s.roots, o) }
func (s *memStore) RemoveRoot(o ecore.EObject) {
	for i, r := range s.roots {
		if r == o {
			s.roots = append(s.roots[:i:i], s.roots[i+1:]...)
			return
		}
	}
}
func (s *memStore) Get(o ecore.EObject, f ecore.EStructuralFeature, i int) any {
	k := memKey{o, f}
	if f.IsMany() {
		return s.lists[k][i]
	}
	return s.single[k]
}
func (s *memStore) Set(o ecore.EObject, f ecore.EStructuralFeature, i int, v any, need bool) any {
	k := memKey{o, f}
	if f.IsMany() {
		old := s.lists[k][i]
		l := append([]any{}, s.lists[k]...)
		l[i] = v
		s.lists[k] = l
		return old
	}
	old := s.single[k]
	s.single[k] = v
	s.set[k] = v != nil
	return old
}
func (s *memStore) IsSet(o ecore.EObject, f ecore.EStructuralFeature) bool {
	k := memKey{o, f}
	if f.IsMany() {
		return len(s.lists[k]) > 0
	}
	return s.set[k]
}
func (s *memStore) UnSet(o ecore.EObject, f ecore.EStructuralFeature) {
	k := memKey{o, f}
	delete(s.lists, k)
	delete(s.single, k)
	delete(s.set, k)
}
func (s *memStore) IsEmpty(o ecore.EObject, f ecore.EStructuralFeature) bool {
	return len(s.lists[memKey{o, f}]) == 0
}
func (s *memStore) Size(o ecore.EObject, f ecore.EStructuralFeature) int {
	return len(s.lists[memKey{o, f}])
}
func (s *memStore) Contains(o ecore.EObject, f ecore.EStructuralFeature, v any) bool {
	return s.IndexOf(o, f, v) >= 0
}
func (s *memStore) IndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	for i, x := range s.lists[memKey{o, f}] {
		if x == v {
			return i
		}
	}
	return -1
}
func (s *memStore) LastIndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	l := s.lists[memKey{o, f}]
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == v {
			return i
		}
	}
	return -1
}
func (s *memStore) ins(k memKey, i int, vs []any) {
	l := s.lists[k]
	if i < 0 || i > len(l) {
		panic("store: insertion out of range " + strconv.Itoa(i))
	}
	r := append([]any{}, l[:i]...)
	r = append(r, vs...)
	s.lists[k] = append(r, l[i:]...)
}
func (s *memStore) Add(o ecore.EObject, f ecore.EStructuralFeature, i int, v any) {
	s.ins(memKey{o, f}, i, []any{v})
}
func (s *memStore) AddAll(o ecore.EObject, f ecore.EStructuralFeature, i int, c ecore.Collection) {
	var vs []any
	for it := c.Iterator(); it.HasNext(); {
		vs = append(vs, it.Next())
	}
	s.ins(memKey{o, f}, i, vs)
}
func (s *memStore) Remove(o ecore.EObject, f ecore.EStructuralFeature, i int, need bool) any {
	k := memKey{o, f}
	l := s.lists[k]
	v := l[i]
	s.lists[k] = append(append([]any{}, l[:i]...), l[i+1:]...)
	return v
}
func (s *memStore) Move(o ecore.EObject, f ecore.EStructuralFeature, from, to int, need bool) any {
	k := memKey{o, f}
	if n := len(s.lists[k]); from < 0 || from >= n || to < 0 || to >= n {
		panic("store: move out of range")
	}
	v := s.Remove(o, f, from, true)
	s.ins(k, to, []any{v})
	return v
}
func (s *memStore) Clear(o ecore.EObject, f ecore.EStructuralFeature) { delete(s.lists, memKey{o, f}) }
func (s *memStore) SetContainer(o, c ecore.EObject, f ecore.EStructuralFeature) {
	if c == nil {
		delete(s.cont, o)
	} else {
		s.cont[o] = memCont{c, f}
	}
}
func (s *memStore) GetContainer(o ecore.EObject) (ecore.EObject, ecore.EStructuralFeature) {
	c := s.cont[o]
	return c.c, c.f
}
func (s *memStore) All(o ecore.EObject, f ecore.EStructuralFeature) iter.Seq[any] {
	l := s.lists[memKey{o, f}]
	return func(yield func(any) bool) {
		for _, v := range l {
			if !yield(v) {
				return
			}
		}
	}
}
func (s *memStore) ToArray(o ecore.EObject, f ecore.EStructuralFeature) []any {
	return append([]any{}, s.lists[memKey{o, f}]...)
}
