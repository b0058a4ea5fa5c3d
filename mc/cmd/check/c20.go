package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C20: JSON documents.

func init() {
	register(&mc.Check{ID: "C20", Level: "model_checking",
		Rule:        "every model of every family of C12 (trees, cross references of every kind, attributes of every type, maps, proxies, texts over an alphabet of special characters), in one resource or several, with and without identifiers, as a resource or as a single object, below relative and absolute URIs, is saved as JSON for real; the document is read with another JSON parser (one value, no key twice) and compared with the model: classes, exactly the set features, texts, contained objects in order, and every reference looked up from its URI. names/: the same with every special text as the name of a class, a feature, a package URI, a literal. The Ecore metamodel as a document.",
		Assumptions: []string{"transient features and references to containers are not saved", "features are not called eClass or eRef", "a resource with no root or several gives an array"},
		Items:       jsonItems})
}

// jval is a JSON value: an object, a list, a text, or nil.
type jobj struct {
	keys []string
	vals map[string]any
}

// parseJSON reads exactly one JSON value; no object has a key twice.
func parseJSON(doc []byte) (v any, err error) {
	if !utf8.Valid(doc) {
		return nil, fmt.Errorf("not UTF-8")
	}
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var read func(depth int) (any, error)
	read = func(depth int) (any, error) {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch t {
		case json.Delim('{'):
			o := &jobj{vals: map[string]any{}}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				x, err := read(depth + 1)
				if err != nil {
					return nil, err
				}
				if _, ok := o.vals[k.(string)]; ok {
					return nil, fmt.Errorf("key %q twice", k)
				}
				o.keys = append(o.keys, k.(string))
				o.vals[k.(string)] = x
			}
			_, err := d.Token()
			return o, err
		case json.Delim('['):
			l := []any{}
			for d.More() {
				x, err := read(depth + 1)
				if err != nil {
					return nil, err
				}
				l = append(l, x)
			}
			_, err := d.Token()
			return l, err
		}
		return t, nil
	}
	if v, err = read(0); err != nil {
		return
	}
	if t, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("%v %v after the end", t, err)
	}
	// the whole thing for the other parser too
	var w any
	return v, json.Unmarshal(doc, &w)
}

// jsonSays compares a JSON value with a real object.
type jsonSays struct {
	set     *ecore.EResourceSetImpl
	res     ecore.EResource
	idName  string
	dangles bool
}

func (j *jsonSays) className(c ecore.EClass) string {
	return c.GetEPackage().GetNsURI() + "#//" + c.GetName()
}

func (j *jsonSays) object(v any, o ecore.EObject, at string) string {
	if o == nil {
		if v != nil {
			return fmt.Sprintf("%s: %v in place of null", at, v)
		}
		return ""
	}
	m, _ := v.(*jobj)
	if m == nil {
		return fmt.Sprintf("%s: %v in place of an object", at, v)
	}
	if o.EIsProxy() {
		return j.reference(v, o, at)
	}
	if m.vals["eClass"] != j.className(o.EClass()) {
		return fmt.Sprintf("%s: class %v, not %s", at, m.vals["eClass"], j.className(o.EClass()))
	}
	want := map[string]bool{"eClass": true}
	if j.idName != "" && j.res.GetObjectIDManager() != nil {
		if id := j.res.GetObjectIDManager().GetID(o); id != nil {
			want[j.idName] = true
			if m.vals[j.idName] != fmt.Sprint(id) {
				return fmt.Sprintf("%s: identifier %v, not %v", at, m.vals[j.idName], id)
			}
		}
	}
	for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		if f.IsTransient() || !o.EIsSet(f) {
			continue
		}
		ref, _ := f.(ecore.EReference)
		if ref != nil && ref.GetEOpposite() != nil && ref.GetEOpposite().IsContainment() {
			continue
		}
		if dt, _ := f.GetEType().(ecore.EDataType); ref == nil && dt != nil && !dt.IsSerializable() {
			continue
		}
		want[f.GetName()] = true
		x, ok := m.vals[f.GetName()]
		where := at + "." + f.GetName()
		if !ok {
			return fmt.Sprintf("%s is missing", where)
		}
		say := func(x any, v any, at string) string {
			if ref == nil {
				if isNil(v) {
					if x != nil {
						return fmt.Sprintf("%s: %v in place of null", at, x)
					}
					return ""
				}
				dt := f.GetEType().(ecore.EDataType)
				if s := dt.GetEPackage().GetEFactoryInstance().ConvertToString(dt, v); x != s {
					return fmt.Sprintf("%s: text %#v, not %q", at, x, s)
				}
				return ""
			}
			y, _ := v.(ecore.EObject)
			if ref.IsContainment() {
				return j.object(x, y, at)
			}
			return j.reference(x, y, at)
		}
		v := o.EGetResolve(f, false)
		if f.IsMany() {
			l := v.(ecore.EList)
			if ol, ok := l.(ecore.EObjectList); ok {
				l = ol.GetUnResolvedList()
			}
			xs, ok := x.([]any)
			if !ok || len(xs) != l.Size() {
				return fmt.Sprintf("%s: %v in place of %d values", where, x, l.Size())
			}
			for i, v := range l.ToArray() {
				if bad := say(xs[i], v, fmt.Sprintf("%s[%d]", where, i)); bad != "" {
					return bad
				}
			}
		} else if bad := say(x, v, where); bad != "" {
			return bad
		}
	}
	for _, k := range m.keys {
		if !want[k] {
			return fmt.Sprintf("%s: unexpected %q", at, k)
		}
	}
	return ""
}

func (j *jsonSays) reference(v any, o ecore.EObject, at string) string {
	if o == nil {
		if v != nil {
			return fmt.Sprintf("%s: %v in place of null", at, v)
		}
		return ""
	}
	m, _ := v.(*jobj)
	if m == nil || len(m.keys) != 2 {
		return fmt.Sprintf("%s: %v in place of a reference", at, v)
	}
	if m.vals["eClass"] != j.className(o.EClass()) {
		return fmt.Sprintf("%s: class %v, not %s", at, m.vals["eClass"], j.className(o.EClass()))
	}
	s, _ := m.vals["eRef"].(string)
	u, err := ecore.ParseURI(s)
	if err != nil {
		return fmt.Sprintf("%s: reference %v: %v", at, m.vals["eRef"], err)
	}
	base := j.res.GetURI()
	if base != nil {
		u = base.Resolve(u)
	}
	if o.EIsProxy() {
		if p := o.(ecore.EObjectInternal).EProxyURI(); u.String() != p.String() && s != p.String() {
			return fmt.Sprintf("%s: reference %q from %s is %s, not %s", at, s, base, u, p)
		}
		return ""
	}
	if o.EResource() == nil {
		j.dangles = true
		return ""
	}
	var r ecore.EResource
	if base == nil {
		r = j.res
	} else if doc := u.TrimFragment(); doc.Equals(base) {
		r = j.res
	} else {
		r = j.set.GetResource(doc, false)
	}
	if r == nil {
		return fmt.Sprintf("%s: reference %q from %s leads to no resource: %s", at, s, base, u)
	}
	if x := r.GetEObject(u.Fragment()); x != o {
		return fmt.Sprintf("%s: reference %q leads to %T %v", at, s, x, x == nil)
	}
	return ""
}

func (j *jsonSays) contents(doc []byte, roots []ecore.EObject) string {
	v, err := parseJSON(doc)
	if err != nil {
		return fmt.Sprintf("not JSON: %v", err)
	}
	if len(roots) == 1 {
		return j.object(v, roots[0], "root")
	}
	l, ok := v.([]any)
	if !ok || len(l) != len(roots) {
		return fmt.Sprintf("%v in place of %d roots", v, len(roots))
	}
	for i, r := range roots {
		if bad := j.object(l[i], r, fmt.Sprintf("root[%d]", i)); bad != "" {
			return bad
		}
	}
	return ""
}

type jsonForm struct {
	name   string
	base   string
	ids    string
	object bool
	noURI  bool
}

var jsonForms = []jsonForm{
	{name: "resource", base: "dir/"},
	{name: "absolute", base: "http://host/x%20y/"},
	{name: "ids", base: "/dir/", ids: "incremental"},
	{name: "uuids", base: "", ids: "uuid"},
	{name: "object", base: "dir/", object: true},
	{name: "no-uri", noURI: true},
}

// jsonTrip saves a model as JSON and reads it; own gives the resource of a
// node that has one.
func jsonTrip(s *mspec, form jsonForm, own map[int]int) string {
	docs := newDocConverter()
	set := docSet(s.m, docs, docForm{})
	set.GetCodecRegistry().GetExtensionToCodecMap()["json"] = &ecore.JSONCodec{}
	objs := s.dynamic()
	var roots []ecore.EObject
	for _, r := range s.roots {
		roots = append(roots, objs[r])
	}
	if d := diffText(s.text(s.roots, textOpts{}), textOf(roots, nil, textOpts{})); d != "" {
		return "as built: " + d
	}
	names := []string{"a.json", "b.json", "sub/c.json", "../d.json", "e%20e.json"}
	var res []ecore.EResource
	isRoot := map[int]bool{}
	for _, r := range s.roots {
		isRoot[r] = true
	}
	for _, first := range []bool{true, false} {
		for _, n := range sortedInts(own) {
			for own[n] >= len(res) {
				var r ecore.EResource
				if form.noURI {
					r = ecore.NewEResourceImpl()
					set.GetResources().Add(r)
				} else {
					r = set.CreateResource(ecore.NewURI(form.base + names[len(res)]).Normalize())
				}
				if form.ids != "" {
					r.SetObjectIDManager(idManager(form.ids))
				}
				res = append(res, r)
			}
			if isRoot[n] == first {
				res[own[n]].GetContents().Add(objs[n])
			}
		}
	}
	options := map[string]any{}
	j := &jsonSays{set: set}
	if form.ids != "" {
		j.idName = "@id"
		options[ecore.JSON_OPTION_ID_ATTRIBUTE_NAME] = j.idName
	}
	for _, r := range res {
		j.res = r
		saved := listOf(r.GetContents())
		var out bytes.Buffer
		p := ""
		j.dangles = false
		if form.object {
			for _, root := range saved {
				out.Reset()
				if err := (&ecore.JSONCodec{}).NewEncoder(r, &out, options).EncodeObject(root); err != nil {
					p = err.Error()
				} else if bad := j.contents(out.Bytes(), []ecore.EObject{root}); bad != "" {
					return fmt.Sprintf("%s; document %q", bad, out.String())
				}
				if s.notUTF8() != (p != "") {
					return fmt.Sprintf("error %q; document %q", p, out.String())
				}
			}
			continue
		}
		if form.noURI {
			(&ecore.JSONCodec{}).NewEncoder(r, &out, options).EncodeResource()
		} else {
			r.SaveWithWriter(&out, options)
		}
		p = problems(r)
		if s.notUTF8() {
			if p == "" {
				return fmt.Sprintf("a text that is not UTF-8 gave no error; document %q", out.String())
			}
			continue
		}
		if bad := j.contents(out.Bytes(), saved); bad != "" && p == "" {
			return fmt.Sprintf("%s; document %q", bad, out.String())
		}
		if j.dangles != (p != "") {
			return fmt.Sprintf("errors %q; document %q", p, out.String())
		}
	}
	return ""
}

// notUTF8 tells whether some text is not UTF-8.
func (s *mspec) notUTF8() bool {
	var bad func(v any) bool
	bad = func(v any) bool {
		switch x := v.(type) {
		case byte:
			return x >= 0x80
		case []byte:
			return !utf8.Valid(x)
		case []any:
			for _, y := range x {
				if bad(y) {
					return true
				}
			}
		case string:
			return !utf8.ValidString(x)
		}
		return false
	}
	for _, n := range s.nodes {
		for _, v := range n.attrs {
			if bad(v) {
				return true
			}
		}
	}
	return false
}

func jsonItems(tier string) []mc.Item {
	thorough := tier == "thorough"
	var items []mc.Item
	run := func(name, family string, mk func() *mm, gen func(s *mspec, c *chooser, d int), trip func(s *mspec) string) {
		items = append(items, mc.Item{Name: name, Run: func(c *mc.Ctx) {
			m := mk()
			var cur *mspec
			c.Beat(func() string { return cur.String() })
			n := enumerate(func(ch *chooser) bool {
				if c.Expired() {
					return false
				}
				s := newSpec(m)
				cur = s
				depth := 2
				if thorough && (strings.Contains(name, "/resource/") || strings.HasSuffix(name, "/resource")) && family != "extra/ids" && family != "parts" {
					depth = 3
				}
				gen(s, ch, depth)
				var bad string
				if p := mc.Panics(func() { bad = trip(s) }); p != "" {
					bad = p
				}
				c.Res.States++
				c.Res.Transitions += int64(len(s.nodes) + len(s.links) + len(s.sets))
				c.Eval(s.String())
				c.Beat(nil)
				return bad == "" || c.Failf("json/"+strings.Split(name, "/")[0]+"/"+family, "%s: %s: %s", name, s, bad)
			})
			c.Res.Traces += n
		}})
	}
	rootsOwn := func(s *mspec, several bool) map[int]int {
		own := map[int]int{}
		for i, r := range s.roots {
			own[r] = 0
			if several {
				own[r] = i
			}
		}
		return own
	}
	crossed := regexp.MustCompile(`^refs|^tree/two|map/references|extra/any`)
	for _, form := range jsonForms {
		for _, f := range docFamilies(thorough) {
			if strings.HasPrefix(f.name, "text/") && form.name != "resource" && form.name != "object" {
				continue
			}
			run("one/"+form.name+"/"+f.name, f.name, docMM, f.gen, func(s *mspec) string {
				return jsonTrip(s, form, rootsOwn(s, false))
			})
			if crossed.MatchString(f.name) && !form.noURI && !form.object {
				run("cross/"+form.name+"/"+f.name, f.name, docMM, f.gen, func(s *mspec) string {
					return jsonTrip(s, form, rootsOwn(s, true))
				})
			}
		}
		if form.noURI || form.object {
			continue
		}
		run("parts/"+form.name, "parts", docMM, func(s *mspec, c *chooser, d int) {
			s.root("Node")
			for range d {
				p := c.pick(len(s.nodes))
				f := contFeats[c.pick(len(contFeats))]
				if probe := s.node("Leaf"); s.free(p, f, probe) {
					s.link(p, f, probe)
				} else {
					s.nodes = s.nodes[:probe]
				}
			}
			for range d - 1 {
				if a, b := c.pick(len(s.nodes)), c.pick(len(s.nodes)); s.free(a, "refs", b) {
					s.link(a, "refs", b)
				}
			}
		}, func(s *mspec) string {
			for mask := range 1 << (len(s.nodes) - 1) {
				own := map[int]int{0: 0}
				for n := 1; n < len(s.nodes); n++ {
					if mask&(1<<(n-1)) != 0 {
						own[n] = len(own)
					}
				}
				if bad := jsonTrip(s, form, own); bad != "" {
					return fmt.Sprintf("own %v: %s", own, bad)
				}
			}
			return ""
		})
		run("dangling/"+form.name, "dangling", docMM, func(s *mspec, c *chooser, d int) {
			r := s.root("Node")
			k := s.child(r, "kids", "Node")
			n := s.node("Node") // nowhere
			s.child(n, "kid", "Node")
			for range 1 + c.pick(d) {
				f := []string{"ref", "refs", "nref", "nrefs", "oo", "om", "mm"}[c.pick(7)]
				if y := []int{2, 3, 1}[c.pick(3)]; s.free(k, f, y) {
					s.link(k, f, y)
				}
			}
		}, func(s *mspec) string {
			docs := newDocConverter()
			set := docSet(s.m, docs, docForm{})
			objs := s.dynamic()
			r := set.CreateResource(ecore.NewURI(form.base + "a.json"))
			r.GetContents().Add(objs[0])
			dangling := false
			for _, n := range s.nodes[:2] {
				for _, l := range n.refs {
					for _, x := range l {
						dangling = dangling || x >= 2
					}
				}
			}
			var out bytes.Buffer
			(&ecore.JSONCodec{}).NewEncoder(r, &out, nil).EncodeResource()
			if p := problems(r); dangling != (p != "") {
				return fmt.Sprintf("errors %q; document %q", p, out.String())
			}
			return ""
		})
	}
	// names
	names := append([]string{}, docTexts...)
	for _, a := range docTexts {
		for _, b := range []string{"x", "\"", "\\", "é", "\x00"} {
			names = append(names, a+b, b+a)
		}
	}
	for _, what := range []string{"class", "feature", "package", "literal", "default"} {
		items = append(items, mc.Item{Name: "names/" + what, Run: func(c *mc.Ctx) {
			for _, t := range names {
				if c.Expired() {
					return
				}
				c.Beat(func() string { return fmt.Sprintf("%s %q", what, t) })
				bad := ""
				if p := mc.Panics(func() { bad = jsonNames(what, t) }); p != "" {
					bad = p
				}
				c.Res.States++
				c.Res.Transitions++
				c.Res.Traces++
				c.Eval(what + t)
				c.Beat(nil)
				if bad != "" && !c.Failf("json/names/"+what, "%s %q: %s", what, t, bad) {
					return
				}
			}
		}})
	}
	items = append(items, mc.Item{Name: "metamodel", Run: func(c *mc.Ctx) {
		c.Beat(func() string { return "metamodel" })
		pkg := ecore.GetPackage()
		r := pkg.EResource()
		set := ecore.NewEResourceSetImpl()
		if r == nil {
			r = ecore.NewEResourceImpl()
			r.SetURI(ecore.NewURI("http://www.eclipse.org/emf/2002/Ecore"))
			r.GetContents().Add(pkg)
			defer r.GetContents().Clear()
		}
		var out bytes.Buffer
		(&ecore.JSONCodec{}).NewEncoder(r, &out, nil).EncodeResource()
		j := &jsonSays{set: set, res: r}
		bad := problems(r)
		if bad == "" {
			bad = j.contents(out.Bytes(), listOf(r.GetContents()))
		}
		c.Res.States++
		c.Res.Transitions += int64(out.Len())
		c.Res.Traces++
		c.Eval("metamodel")
		if bad != "" {
			c.Failf("json/metamodel", "%s", bad)
		}
	}})
	return items
}

// jsonNames saves a model where one name is the given text.
func jsonNames(what, t string) string {
	m := newMM("http://model", []cspec{{name: "Node", feats: []fspec{
		{name: "a", typ: "string"}, {name: "l", typ: "string", many: true},
		{name: "ref", typ: "Node", ref: true}, {name: "refs", typ: "Node", ref: true, many: true},
		{name: "kid", typ: "Node", ref: true, cont: true}, {name: "kids", typ: "Node", ref: true, cont: true, many: true}}}})
	color := mkEnum([]literal{{"red", "", 1}, {"blue", t, 2}})
	color.SetName("Color")
	m.pkg.GetEClassifiers().Add(color)
	m.add(m.pkg, "", []cspec{{name: "Sub", supers: []string{"Node"}, feats: []fspec{{name: "color", dtyp: color}, {name: "colors", dtyp: color, many: true}, {name: "d", typ: "string", def: t}}}})
	cl := m.classes["Sub"]
	mk := func() ecore.EObject { return cl.GetEPackage().GetEFactoryInstance().Create(cl) }
	fs := map[string]ecore.EStructuralFeature{}
	for _, f := range []string{"a", "l", "ref", "refs", "kid", "kids", "color", "colors", "d"} {
		fs[f] = m.feature("Sub", f)
	}
	var renamed []ecore.ENamedElement
	switch what {
	case "class":
		renamed = append(renamed, cl)
	case "package":
		m.pkg.SetNsURI(t)
	case "feature":
	}
	for _, n := range renamed {
		n.SetName(t)
	}
	features := []string{""}
	if what == "feature" {
		features = []string{"a", "l", "ref", "refs", "kid", "kids", "color"}
	}
	for _, f := range features {
		if f != "" {
			if fs[t] != nil {
				return ""
			}
			fs[f].SetName(t)
		}
		r := ecore.NewEResourceImpl()
		r.SetURI(ecore.NewURI("dir/a.json"))
		a, b, k := mk(), mk(), mk()
		r.GetContents().Add(a)
		a.ESet(fs["a"], "text")
		a.ESet(fs["kid"], b)
		b.EGet(fs["kids"]).(ecore.EList).Add(k)
		a.EGet(fs["l"]).(ecore.EList).Add("text")
		a.ESet(fs["ref"], b)
		if f != "kid" && f != "kids" { // the URIs of the objects hold these names (C09)
			b.EGet(fs["refs"]).(ecore.EList).Add(k)
		} else {
			a.EUnset(fs["ref"])
		}
		a.ESet(fs["color"], 2)
		a.EGet(fs["colors"]).(ecore.EList).Add(2)
		b.ESet(fs["d"], t)
		var out bytes.Buffer
		(&ecore.JSONCodec{}).NewEncoder(r, &out, nil).EncodeResource()
		p := problems(r)
		if !utf8.ValidString(t) {
			if p == "" {
				return fmt.Sprintf("%s: no error; document %q", f, out.String())
			}
		} else {
			if p != "" {
				return fmt.Sprintf("%s: errors %s; document %q", f, p, out.String())
			}
			j := &jsonSays{set: ecore.NewEResourceSetImpl(), res: r}
			if bad := j.contents(out.Bytes(), []ecore.EObject{a}); bad != "" {
				return fmt.Sprintf("%s: %s; document %q", f, bad, out.String())
			}
		}
		if f != "" {
			fs[f].SetName(f)
		}
	}
	return ""
}
