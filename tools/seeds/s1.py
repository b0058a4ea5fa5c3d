NODE = '''
	f := GetFactory()
	p := f.CreateEPackage()
	c := f.CreateEClass()
	c.SetName("N")
	p.GetEClassifiers().Add(c)
	ref := func(name string, many, cont, resolve bool) EReference {
		r := f.CreateEReference()
		r.SetName(name)
		r.SetEType(c)
		r.SetContainment(cont)
		r.SetResolveProxies(resolve)
		if many {
			r.SetUpperBound(-1)
		}
		c.GetEStructuralFeatures().Add(r)
		return r
	}
	obj := func() EObject {
		o := NewDynamicEObjectImpl()
		o.SetEClass(c)
		return o
	}
	_, _ = ref, obj
'''
SEEDS = [
 dict(id='c02-single-kid-replaced-from-child', property='C02',
  needs='single-valued bidirectional containment that is already filled, and a new child that sets its container reference',
  breaks='the replaced child keeps reporting its old container',
  edits=[('ecore/abstracteobject.go','''			if IsContains(dynamicFeature) {
				featureID := o.AsEObject().EClass().GetFeatureID(dynamicFeature)
				notifications = oldObject.(EObjectInternal).EInverseRemove(o.AsEObject(), EOPPOSITE_FEATURE_BASE-featureID, notifications)
			} else if IsBidirectional(dynamicFeature) {''','''			if IsContains(dynamicFeature) {
				featureID := o.AsEObject().EClass().GetFeatureID(dynamicFeature)
				if oldObject.(EObjectInternal).EInternalContainerFeatureID() == EOPPOSITE_FEATURE_BASE-featureID {
					notifications = oldObject.(EObjectInternal).EInverseRemove(o.AsEObject(), EOPPOSITE_FEATURE_BASE-featureID, notifications)
				}
			} else if IsBidirectional(dynamicFeature) {''')],
  demo=NODE+'''
	kid, parent := ref("kid", false, true, true), ref("parent", false, false, true)
	kid.SetEOpposite(parent)
	parent.SetEOpposite(kid)
	a, b, d := obj(), obj(), obj()
	a.ESet(kid, b)
	d.ESet(parent, a)
	if a.EGet(kid) != d || b.EContainer() != nil || b.EGet(parent) != nil {
		t.Fatal("the replaced child still has a container")
	}
'''),
 dict(id='c03-one-to-one-steal', property='C03',
  needs='one-to-one opposites: a partner that already has a partner is taken over from the other end',
  breaks='the old partner keeps referring to the object that was taken over',
  edits=[('ecore/abstracteobject.go','''			} else if IsBidirectional(dynamicFeature) {
				dynamicReference := dynamicFeature.(EReference)
				reverseFeature := dynamicReference.GetEOpposite()
				featureID := oldObject.EClass().GetFeatureID(reverseFeature)
				notifications = oldObject.(EObjectInternal).EInverseRemove(o.AsEObject(), featureID, notifications)
			}
		}

		// set current value''','''			} else if IsBidirectional(dynamicFeature) && oldObject.EContainer() != nil {
				dynamicReference := dynamicFeature.(EReference)
				reverseFeature := dynamicReference.GetEOpposite()
				featureID := oldObject.EClass().GetFeatureID(reverseFeature)
				notifications = oldObject.(EObjectInternal).EInverseRemove(o.AsEObject(), featureID, notifications)
			}
		}

		// set current value''')],
  demo=NODE+'''
	x, y := ref("x", false, false, true), ref("y", false, false, true)
	x.SetEOpposite(y)
	y.SetEOpposite(x)
	a, b, d := obj(), obj(), obj()
	a.ESet(x, b)
	d.ESet(x, b)
	if a.EGet(x) != nil || b.EGet(y) != d {
		t.Fatal("asymmetric")
	}
'''),
 dict(id='c01-store-cache-removerange', property='C01',
  needs='a store-backed list with a cache, and a range of several elements removed that does not start at the front',
  breaks='the store loses other elements than the cache: the list answers differently once the cache is gone',
  edits=[('ecore/estorelist.go','''				_ = list.store.Remove(list.owner, list.feature, fromIndex, false)
''','''				_ = list.store.Remove(list.owner, list.feature, toIndex-1-i, false)
''')],
  helpers='''
type zzStore struct {
	EStore
	data []any
}

func (s *zzStore) Size(EObject, EStructuralFeature) int           { return len(s.data) }
func (s *zzStore) Get(_ EObject, _ EStructuralFeature, i int) any { return s.data[i] }
func (s *zzStore) ToArray(EObject, EStructuralFeature) []any      { return append([]any{}, s.data...) }
func (s *zzStore) Add(_ EObject, _ EStructuralFeature, i int, v any) {
	s.data = append(s.data[:i:i], append([]any{v}, s.data[i:]...)...)
}
func (s *zzStore) Remove(_ EObject, _ EStructuralFeature, i int, _ bool) any {
	v := s.data[i]
	s.data = append(s.data[:i:i], s.data[i+1:]...)
	return v
}

''',
  demo='''
	f := GetFactory()
	p := f.CreateEPackage()
	c := f.CreateEClass()
	p.GetEClassifiers().Add(c)
	at := f.CreateEAttribute()
	at.SetName("tags")
	at.SetUpperBound(-1)
	at.SetUnique(false)
	at.SetEType(GetPackage().GetEString())
	c.GetEStructuralFeatures().Add(at)
	o := NewEStoreEObjectImpl(true)
	o.SetEClass(c)
	s := &zzStore{}
	o.SetEStore(s)
	l := o.EGet(at).(EList)
	for _, e := range []string{"a", "b", "c", "d", "e"} {
		l.Add(e)
	}
	l.RemoveRange(2, 4)
	if len(s.data) != 3 || s.data[0] != "a" || s.data[1] != "b" || s.data[2] != "e" {
		t.Fatal(s.data)
	}
'''),
 dict(id='c04-container-old', property='C04',
  needs='an object with a container reference moves from one container to another through the opposite containment list, with an adapter attached',
  breaks='the notification of the container reference tells of no old container',
  edits=[('ecore/abstracteobject.go','''			if oldContainerFeatureID == newContainerFeatureID {
				c = oldContainer
			}
''','''			if oldContainerFeatureID == newContainerFeatureID && newContainer == nil {
				c = oldContainer
			}
''')],
  helpers='''
type zzAdapter struct {
	AbstractEAdapter
	olds []any
}

func (a *zzAdapter) NotifyChanged(n ENotification) { a.olds = append(a.olds, n.GetOldValue()) }

''',
  demo=NODE+'''
	kids, parent := ref("kids", true, true, true), ref("parent", false, false, true)
	kids.SetEOpposite(parent)
	parent.SetEOpposite(kids)
	a, b, d := obj(), obj(), obj()
	a.EGet(kids).(EList).Add(b)
	ad := &zzAdapter{}
	b.EAdapters().Add(ad)
	n := len(ad.olds)
	d.EGet(kids).(EList).Add(b)
	for _, o := range ad.olds[n:] {
		if o == a {
			return
		}
	}
	t.Fatal("no notification tells of the old container")
'''),
]
