package main

import (
	"bytes"
	"fmt"
	"io"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C12, C13: documents and what loads from them.

func init() {
	rule := "one/: every model of every family (trees, cross references of every kind, attributes of every type, maps, proxies, texts over an alphabet of special characters, names that need escaping) up to a size, built for real, saved into a document in memory and loaded into a fresh resource set; what was loaded is compared with the plain data of the model (order, values, set and unset features, references, identifiers), and saving it again must give the same document. cross/: the same with the roots in several resources, loaded on demand. parts/: every tree with every choice of which contained objects are kept in resources of their own."
	register(&mc.Check{ID: "C12", Level: "model_checking",
		Rule:        rule + " Each with every option that selects a form: XML and XMI, identifiers, deferred references, deferred roots, single objects.",
		Assumptions: []string{"identifiers hold no spaces", "texts hold characters that XML 1.0 can hold (others must give an error)", "transient features are not saved", "references to other documents that do not resolve proxies are left out"},
		Items:       func(tier string) []mc.Item { return docItems(tier, []string{"xml", "ecore"}) }})
	register(&mc.Check{ID: "C13", Level: "model_checking",
		Rule:        rule,
		Assumptions: []string{"transient features are not saved", "references to other documents that do not resolve proxies are left out"},
		Items:       func(tier string) []mc.Item { return docItems(tier, []string{"bin"}) }})
}

// docForm is one form of document.
type docForm struct {
	ext     string
	name    string
	options map[string]any
	ids     string // kind of identifiers
	objects bool   // single objects in place of resources
	alone   bool   // resources without a URI
}

func (f docForm) xml() bool { return f.ext == "xml" || f.ext == "ecore" }

func docForms(exts []string) []docForm {
	var r []docForm
	for _, e := range exts {
		r = append(r, docForm{ext: e, name: e}, docForm{ext: e, name: e + "-alone", alone: true})
		switch e {
		case "sqlite":
			// files are slower; the form of the bytes is the same
			r = r[:len(r)-2]
			mem := func(name, ids string, kv ...any) {
				o := map[string]any{ecore.SQL_OPTION_IN_MEMORY_DATABASE: true}
				for i := 0; i < len(kv); i += 2 {
					o[kv[i].(string)] = kv[i+1]
				}
				r = append(r, docForm{ext: e, name: name, options: o, ids: ids})
			}
			mem("sql-memory", "")
			r = append(r, docForm{ext: e, name: "sql-file"})
			mem("sql-ids", "incremental", ecore.SQL_OPTION_OBJECT_ID, "id")
			mem("sql-uuids", "uuid", ecore.SQL_OPTION_OBJECT_ID, "uuid")
			mem("sql-containers", "uuid", ecore.SQL_OPTION_OBJECT_ID, "uuid", ecore.SQL_OPTION_CONTAINER_ID, true)
			mem("sql-defaults", "", ecore.SQL_OPTION_KEEP_DEFAULTS, true)
		case "bin":
			o := map[string]any{ecore.BINARY_OPTION_ID_ATTRIBUTE: true}
			r = append(r, docForm{ext: e, name: e + "-ids", options: o, ids: "incremental"})
			r = append(r, docForm{ext: e, name: e + "-uuids", options: o, ids: "uuid"})
			r = append(r, docForm{ext: e, name: e + "-object", objects: true})
		default:
			o := map[string]any{ecore.XML_OPTION_ID_ATTRIBUTE_NAME: "_id"}
			r = append(r, docForm{ext: e, name: e + "-ids", options: o, ids: "incremental"})
			r = append(r, docForm{ext: e, name: e + "-uuids", options: o, ids: "uuid"})
			r = append(r, docForm{ext: e, name: e + "-deferred-refs", options: map[string]any{ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION: true}})
			r = append(r, docForm{ext: e, name: e + "-deferred-root", options: map[string]any{ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT: true}})
			r = append(r, docForm{ext: e, name: e + "-object", objects: true})
		}
	}
	return r
}

func idManager(kind string) ecore.EObjectIDManager {
	switch kind {
	case "incremental":
		return ecore.NewIncrementalIDManager()
	case "uuid":
		return ecore.NewUUIDManager()
	}
	return nil
}

func docSet(m *mm, docs *docConverter, form docForm) *ecore.EResourceSetImpl {
	s := ecore.NewEResourceSetImpl()
	s.SetURIConverter(docs)
	s.GetPackageRegistry().RegisterPackage(m.pkg)
	if m.other != nil {
		s.GetPackageRegistry().RegisterPackage(m.other)
	}
	return s
}

func newDoc(s *ecore.EResourceSetImpl, uri string, form docForm) ecore.EResource {
	r := s.CreateResource(ecore.NewURI(uri))
	if form.ids != "" {
		r.SetObjectIDManager(idManager(form.ids))
	}
	return r
}

func problems(r ecore.EResource) string {
	var b []string
	for it := r.GetErrors().Iterator(); it.HasNext(); {
		b = append(b, it.Next().(ecore.EDiagnostic).GetMessage())
	}
	for it := r.GetWarnings().Iterator(); it.HasNext(); {
		b = append(b, it.Next().(ecore.EDiagnostic).GetMessage())
	}
	return strings.Join(b, "; ")
}

// resolveAll resolves all proxies that can be resolved.
func resolveAll(roots []ecore.EObject) {
	seen := map[ecore.EObject]bool{}
	var walk func(o ecore.EObject)
	walk = func(o ecore.EObject) {
		if seen[o] || o.EIsProxy() {
			return
		}
		seen[o] = true
		for it := o.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EReference)
			if !o.EIsSet(f) {
				continue
			}
			v := o.EGet(f)
			if f.IsMany() {
				for _, x := range v.(ecore.EList).ToArray() {
					if y, _ := x.(ecore.EObject); y != nil && f.IsContainment() {
						walk(y)
					}
				}
			} else if y, _ := v.(ecore.EObject); !isNil(v) && y != nil && f.IsContainment() {
				walk(y)
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
}

func listOf(l ecore.EList) []ecore.EObject {
	var r []ecore.EObject
	for it := l.Iterator(); it.HasNext(); {
		r = append(r, it.Next().(ecore.EObject))
	}
	return r
}

// trip saves a model and loads it again. own gives the resource of a node
// (by number) when it has one; the first one's document is loaded.
// plainText says whether the form can hold the model.
func docTrip(s *mspec, form docForm, own map[int]int) (bad string) {
	docs := newDocConverter()
	set := docSet(s.m, docs, form)
	objs := s.dynamic()
	var roots []ecore.EObject
	for _, r := range s.roots {
		roots = append(roots, objs[r])
	}
	if d := diffText(s.text(s.roots, textOpts{}), textOf(roots, nil, textOpts{})); d != "" {
		return "as built: " + d
	}
	nres := 1 // at least
	for _, r := range own {
		nres = max(nres, r+1)
	}
	uri := func(k int) string {
		return []string{"dir/a." + form.ext, "dir/b." + form.ext, "dir/sub/c." + form.ext, "d." + form.ext, "dir/e%20e." + form.ext, "f." + form.ext}[k]
	}
	res := make([]ecore.EResource, nres)
	for k := range res {
		res[k] = newDoc(set, uri(k), form)
	}
	isRoot := map[int]bool{}
	for _, r := range s.roots {
		isRoot[r] = true
	}
	for _, n := range sortedInts(own) {
		if isRoot[n] {
			res[own[n]].GetContents().Add(objs[n])
		}
	}
	for _, n := range sortedInts(own) {
		if !isRoot[n] {
			res[own[n]].GetContents().Add(objs[n])
		}
	}
	for k, r := range res {
		r.SaveWithOptions(form.options)
		p := problems(r)
		if form.xml() && s.illegal() {
			if p == "" {
				return fmt.Sprintf("saving characters that XML does not allow gave no error; document %q", docs.docs[uri(k)])
			}
			return ""
		}
		if p != "" {
			return fmt.Sprintf("saving %s: %s", uri(k), p)
		}
	}
	ids := func(r []ecore.EResource, objs []ecore.EObject) string {
		var b []string
		for _, o := range objs {
			id := any("none")
			if or := o.EResource(); or != nil && or.GetObjectIDManager() != nil {
				id = or.GetObjectIDManager().GetID(o)
			}
			b = append(b, fmt.Sprint(id))
		}
		return strings.Join(b, " ")
	}
	if form.name == "sql-defaults" {
		// features that hold their default value are set after loading
		for _, n := range s.nodes {
			for it := s.m.classes[n.class].GetEAllAttributes().Iterator(); it.HasNext(); {
				f := it.Next().(ecore.EAttribute)
				if _, ok := n.attrs[f.GetName()]; !ok && f.GetDefaultValueLiteral() != "" {
					n.attrs[f.GetName()] = f.GetDefaultValue()
				}
			}
		}
	}
	want := s.text(s.roots, textOpts{})
	docs2 := newDocConverter()
	docs2.docs = docs.docs
	set2 := docSet(s.m, docs2, form)
	var res2 []ecore.EResource
	var roots2 []ecore.EObject
	if form.ids != "" {
		// resources must know their identifiers before they are loaded
		for k := range res {
			res2 = append(res2, newDoc(set2, uri(k), form))
		}
		for _, r := range res2 {
			r.LoadWithOptions(form.options) // a load on demand has no options
		}
	} else {
		res2 = append(res2, newDoc(set2, uri(0), form))
		res2[0].LoadWithOptions(form.options)
	}
	if form.ext == "sqlite" {
		for _, u := range sortedKeys(docs.docs) {
			defer func() { bad = strings.ReplaceAll(bad, fmt.Sprintf("%q", docs.docs[u]), u) }()
		}
	}
	doc := docs.docs[uri(0)]
	if p := problems(res2[0]); p != "" {
		return fmt.Sprintf("loading %q: %s", doc, p)
	}
	if !res2[0].IsLoaded() {
		return "the resource is not loaded"
	}
	resolveAll(listOf(res2[0].GetContents()))
	for k := range res {
		r := set2.GetResource(ecore.NewURI(uri(k)), true)
		if r == nil {
			return "no resource " + uri(k)
		}
		if k > 0 && !r.IsLoaded() {
			r.LoadWithOptions(form.options)
		}
		if p := problems(r); p != "" {
			return fmt.Sprintf("loading %q: %s", docs.docs[uri(k)], p)
		}
		if k >= len(res2) {
			res2 = append(res2, r)
		}
		resolveAll(listOf(r.GetContents()))
	}
	// the roots in the order of the model
	at := make([]int, nres)
	for _, n := range sortedInts(own) {
		if isRoot[n] {
			l := res2[own[n]].GetContents()
			if at[own[n]] >= l.Size() {
				return fmt.Sprintf("resource %s has %d roots; document %q", uri(own[n]), l.Size(), docs.docs[uri(own[n])])
			}
			roots2 = append(roots2, l.Get(at[own[n]]).(ecore.EObject))
			at[own[n]]++
		}
	}
	for k, r := range res2 {
		n := 0
		for _, r := range own {
			if r == k {
				n++
			}
		}
		if l := r.GetContents(); l.Size() != n {
			return fmt.Sprintf("resource %s has %d objects, expected %d; document %q", uri(k), l.Size(), n, docs.docs[uri(k)])
		}
	}
	got, order2 := textOrder(roots2, nil, textOpts{resolved: set2})
	if d := diffText(want, got); d != "" {
		return fmt.Sprintf("%s; document %q", d, doc)
	}
	if form.ids != "" {
		order, _ := s.order(s.roots, textOpts{})
		var a []ecore.EObject
		for _, n := range order {
			a = append(a, objs[n])
		}
		if x, y := ids(res, a), ids(res2, order2); x != y {
			return fmt.Sprintf("identifiers %s, after loading %s; document %q", x, y, doc)
		}
	}
	if form.ext == "sqlite" {
		return "" // the order of rows is free
	}
	// again
	for k, r := range res2 {
		first := string(docs.docs[uri(k)])
		r.SaveWithOptions(form.options)
		if p := problems(r); p != "" {
			return fmt.Sprintf("saving again: %s", p)
		}
		if second := string(docs.docs[uri(k)]); first != second {
			return fmt.Sprintf("saved %q, saved again after loading %q", first, second)
		}
	}
	return ""
}

// illegal tells whether some text holds characters that XML 1.0 does not allow.
func (s *mspec) illegal() bool {
	var bad func(v any) bool
	bad = func(v any) bool {
		switch x := v.(type) {
		case byte:
			return bad(string([]byte{x}))
		case []byte:
			return bad(string(x))
		case []any:
			for _, y := range x {
				if bad(y) {
					return true
				}
			}
		case string:
			for i, r := range x {
				if r < ' ' && !strings.ContainsRune("\t\n\r", r) || r == 0xFFFE || r == 0xFFFF || r == utf8.RuneError && !strings.HasPrefix(x[i:], "\uFFFD") {
					return true
				}
			}
		}
		return false
	}
	for _, n := range s.nodes {
		for _, v := range n.attrs {
			if bad(v) {
				return true
			}
		}
	}
	return false
}

func sortedInts(m map[int]int) []int {
	var r []int
	for i := 0; len(r) < len(m); i++ {
		if _, ok := m[i]; ok {
			r = append(r, i)
		}
	}
	return r
}

// objectTrip saves and loads one object alone.
func objectTrip(s *mspec, form docForm) string {
	docs := newDocConverter()
	objs := s.dynamic()
	r := newDoc(docSet(s.m, docs, form), "a."+form.ext, form)
	r.GetContents().Add(objs[s.roots[0]])
	codec := r.GetResourceSet().GetCodecRegistry().GetCodec(r.GetURI())
	w := &docWriter{done: func([]byte) {}}
	if err := codec.NewEncoder(r, w, form.options).EncodeObject(objs[s.roots[0]]); form.xml() && s.illegal() {
		if err == nil {
			return fmt.Sprintf("characters that XML does not allow gave no error; document %q", w.String())
		}
		return ""
	} else if err != nil {
		return fmt.Sprintf("encoding: %v", err)
	}
	r2 := newDoc(docSet(s.m, docs, form), "a."+form.ext, form)
	o, err := codec.NewDecoder(r2, io.Reader(strings.NewReader(w.String())), form.options).DecodeObject()
	if err != nil || o == nil {
		return fmt.Sprintf("decoding %q: %v %v", w.String(), o, err)
	}
	if d := diffText(s.text(s.roots, textOpts{}), textOf([]ecore.EObject{o}, nil, textOpts{})); d != "" {
		return fmt.Sprintf("%s; document %q", d, w.String())
	}
	return ""
}

// aloneTrip saves and loads a resource that has no URI.
func aloneTrip(s *mspec, form docForm) string {
	objs := s.dynamic()
	set := docSet(s.m, newDocConverter(), form)
	codec := set.GetCodecRegistry().GetCodec(ecore.NewURI("a." + form.ext))
	r := ecore.NewEResourceImpl()
	set.GetResources().Add(r)
	for _, n := range s.roots {
		r.GetContents().Add(objs[n])
	}
	var out bytes.Buffer
	codec.NewEncoder(r, &out, form.options).EncodeResource()
	if p := problems(r); p != "" {
		return "encoding: " + p
	}
	set2 := docSet(s.m, newDocConverter(), form)
	r2 := ecore.NewEResourceImpl()
	set2.GetResources().Add(r2)
	codec.NewDecoder(r2, bytes.NewReader(out.Bytes()), form.options).DecodeResource()
	if p := problems(r2); p != "" {
		return fmt.Sprintf("decoding %q: %s", out.String(), p)
	}
	if d := diffText(s.text(s.roots, textOpts{}), textOf(listOf(r2.GetContents()), nil, textOpts{})); d != "" {
		return fmt.Sprintf("%s; document %q", d, out.String())
	}
	return ""
}

var docTexts = []string{"a", " ", "<", "&", "\"", "'", ">", "\n", "\t", "\r", "é", "😀", "]]>", "%", "&amp;", "\u00a0", "\u2028", "\x00", "\xff", "\uFFFD", "\uFFFE"}

// docFamilies adds families of texts to the common ones.
func docFamilies(thorough bool) []modelFamily {
	fs := modelFamilies()
	add := func(name string, gen func(s *mspec, c *chooser, d int)) {
		fs = append(fs, modelFamily{name, gen})
	}
	n := 2
	if thorough {
		n = 3
	}
	text := func(c *chooser) string {
		t := ""
		for range n {
			k := c.pick(len(docTexts) + 1)
			if k == 0 {
				break
			}
			t += docTexts[k-1]
		}
		return t
	}
	add("roots", func(s *mspec, c *chooser, d int) {
		classes := []string{"Node", "Leaf"}
		for range c.pick(d + 2) {
			if r := s.root(classes[c.pick(2)]); c.pick(2) > 0 {
				s.child(r, "kid", "Leaf")
			}
		}
	})
	add("text/attribute", func(s *mspec, c *chooser, d int) {
		s.set(s.root("Node"), "a_string", text(c))
	})
	add("text/unsettable", func(s *mspec, c *chooser, d int) {
		s.set(s.root("Node"), "u_string", text(c))
	})
	add("text/list", func(s *mspec, c *chooser, d int) {
		s.set(s.root("Node"), "n_string", []any{text(c), "z"})
	})
	add("text/map", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		e := s.child(r, "map", "StrEntry")
		t := text(c)
		s.set(e, "key", t)
		s.set(e, "value", t)
	})
	add("text/bytes", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		t := []byte(text(c))
		s.set(r, "a_bytes", t)
		s.set(r, "l_bytes", []any{t, t})
	})
	add("text/byte", func(s *mspec, c *chooser, d int) {
		r := s.root("Node")
		b := byte(c.pick(256))
		s.set(r, "a_byte", b)
		s.set(r, "l_char", []any{b})
	})
	add("extra/any", func(s *mspec, c *chooser, d int) {
		r := s.root([]string{"Xtra", "Node"}[c.pick(2)])
		x := r
		if s.nodes[r].class != "Xtra" {
			x = s.child(r, "kids", "Xtra")
		}
		for k, n := 0, c.pick(d+1); k < n; k++ {
			probe := s.node([]string{"Node", "q.Node", "Base", "Xtra"}[c.pick(4)])
			f := []string{"xkid", "xkids"}[c.pick(2)]
			if !s.free(x, f, probe) {
				s.nodes = s.nodes[:probe]
				continue
			}
			s.link(x, f, probe)
		}
		for k, n := 0, c.pick(d+1); k < n; k++ {
			f := []string{"xref", "xrefs"}[c.pick(2)]
			if y := c.pick(len(s.nodes)); s.free(x, f, y) {
				s.link(x, f, y)
			}
		}
	})
	add("extra/unsettable", func(s *mspec, c *chooser, d int) {
		r := s.root("Xtra")
		k := s.child(r, "kids", "Node")
		if c.bool() {
			s.link(r, "uref", k)
		}
		if c.bool() {
			s.child(r, "ukid", "Base")
		}
		for range c.pick(3) {
			s.child(r, "ukids", "Node")
		}
		for n := range c.pick(3) {
			s.link(r, "urefs", []int{k, r}[n])
		}
		l := []any{}
		for n := range c.pick(3) {
			l = append(l, []any{"a", ""}[n])
		}
		if len(l) > 0 {
			s.set(r, "ul_string", l)
		}
	})
	add("extra/types", func(s *mspec, c *chooser, d int) {
		r := s.root("Xtra")
		for _, f := range []string{"color", "dcolor"} {
			if k := c.pick(4); k > 0 {
				s.set(r, f, []any{1, 2, 0}[k-1])
			}
		}
		l := []any{}
		for k, n := 0, c.pick(d+1); k < n; k++ {
			l = append(l, []any{1, 2, 0}[c.pick(3)])
		}
		if len(l) > 0 {
			s.set(r, "colors", l)
		}
		if k := c.pick(3); k > 0 {
			s.set(r, "code", []any{"", "x y"}[k-1])
		}
	})
	add("extra/ids", func(s *mspec, c *chooser, d int) {
		r := s.root("Ided")
		s.child(r, "kids", "Ided")
		s.child(r, "kid", "Node")
		given := []string{"i1", "a.b-c", "x0", "é<&"}
		for _, n := range []int{0, 1} {
			if k := c.pick(len(given) + 1); k > 0 {
				s.set(n, "id", given[k-1])
				given = append(append([]string{}, given[:k-1]...), given[k:]...)
			}
		}
		for _, f := range []string{"ref", "om", "refs"} {
			for k, m := 0, c.pick(d); k < m; k++ {
				x, y := c.pick(3), c.pick(3)
				if s.free(x, f, y) {
					s.link(x, f, y)
				}
			}
		}
	})
	add("extra/abstract", func(s *mspec, c *chooser, d int) {
		s.root("Conc")
		for k, n := 0, c.pick(d+1); k < n; k++ {
			x := c.pick(len(s.nodes))
			probe := s.node("Conc")
			f := []string{"akid", "akids", "cokid", "bkids"}[c.pick(4)]
			if !s.free(x, f, probe) {
				s.nodes = s.nodes[:probe]
				continue
			}
			s.link(x, f, probe)
		}
		for _, f := range []string{"aref", "arefs"} {
			x, y := c.pick(len(s.nodes)), c.pick(len(s.nodes)+1)
			if y > 0 && s.free(x, f, y-1) {
				s.link(x, f, y-1)
			}
		}
	})
	add("extra/packages", func(s *mspec, c *chooser, d int) {
		s.root([]string{"Node", "q.Node"}[c.pick(2)])
		for k, n := 0, c.pick(d+1); k < n; k++ {
			x := c.pick(len(s.nodes))
			fs := []string{"kid", "kids"}
			if s.nodes[x].class == "q.Node" {
				fs = append(fs, "qkid", "qkids")
			}
			f := fs[c.pick(len(fs))]
			probe := s.node([]string{"Node", "q.Node"}[c.pick(2)])
			if f == "qkid" && s.nodes[probe].class != "q.Node" || !s.free(x, f, probe) {
				s.nodes = s.nodes[:probe]
				continue
			}
			s.link(x, f, probe)
		}
		for x := range s.nodes {
			if s.nodes[x].class == "q.Node" {
				s.set(x, "qname", "q")
				for y := range s.nodes {
					if s.nodes[y].class == "q.Node" && s.free(x, "qref", y) && c.bool() {
						s.link(x, "qref", y)
					}
				}
			}
			s.set(x, "bname", "b")
		}
	})
	return fs
}

// otherName is the name of the class of the second package.
var otherName = "Node"

// docMM adds to the common classes: features of any class, unsettable
// references, identifiers, enumerations, and a second package with the same
// prefix and class names.
func docMM() *mm {
	m := modelMM("http://model")
	f := ecore.GetFactory()
	color := mkEnum([]literal{{"red", "", 1}, {"blue", "light blue", 2}, {"none", "", 0}})
	color.SetName("Color")
	m.pkg.GetEClassifiers().Add(color)
	code := f.CreateEDataType()
	code.SetName("Code")
	code.SetInstanceTypeName("string")
	m.pkg.GetEClassifiers().Add(code)
	m.add(m.pkg, "", []cspec{
		{name: "Xtra", supers: []string{"Node"}, feats: []fspec{
			{name: "xref", typ: "EObject", ref: true},
			{name: "xrefs", typ: "EObject", ref: true, many: true},
			{name: "xkid", typ: "EObject", ref: true, cont: true},
			{name: "xkids", typ: "EObject", ref: true, cont: true, many: true},
			{name: "uref", typ: "Base", ref: true, unsettable: true},
			{name: "urefs", typ: "Base", ref: true, many: true, unsettable: true},
			{name: "ukid", typ: "Base", ref: true, cont: true, unsettable: true},
			{name: "ukids", typ: "Base", ref: true, cont: true, many: true, unsettable: true},
			{name: "ul_string", typ: "string", many: true, unsettable: true},
			{name: "color", dtyp: color},
			{name: "dcolor", dtyp: color, def: "light blue"},
			{name: "colors", dtyp: color, many: true, nonUnique: true},
			{name: "code", dtyp: code},
		}},
		{name: "Ided", supers: []string{"Node"}, feats: []fspec{{name: "id", typ: "string", isID: true}}},
		{name: "Abs", supers: []string{"Base"}, abstract: true},
		{name: "Conc", supers: []string{"Abs"}, feats: []fspec{
			{name: "akid", typ: "Abs", ref: true, cont: true},
			{name: "akids", typ: "Abs", ref: true, cont: true, many: true},
			{name: "aref", typ: "Abs", ref: true},
			{name: "arefs", typ: "Abs", ref: true, many: true},
			{name: "cokid", typ: "Conc", ref: true, cont: true},
		}},
	})
	m.other = newPkg("q", "http://model/q")
	m.add(m.other, "q.", []cspec{{name: otherName, supers: []string{"Node"}, feats: []fspec{
		{name: "qname", typ: "string"},
		{name: "qref", typ: "q." + otherName, ref: true},
		{name: "qkid", typ: "q." + otherName, ref: true, cont: true},
		{name: "qkids", typ: "Node", ref: true, cont: true, many: true},
	}}})
	m.classes["q.Node"] = m.classes["q."+otherName]
	return m
}

func docItems(tier string, exts []string) []mc.Item {
	thorough := tier == "thorough"
	var items []mc.Item
	run := func(name, family string, gen func(s *mspec, c *chooser, d int), depth int, trip func(s *mspec, ch *chooser) string) {
		items = append(items, mc.Item{Name: name, Run: func(c *mc.Ctx) {
			m := docMM()
			if strings.Contains(name, "/sql-") {
				// tables cost time: features that no model uses are left out
				keep := map[string]bool{}
				enumerate(func(ch *chooser) bool {
					s := newSpec(m)
					gen(s, ch, depth)
					if strings.HasPrefix(family, "tree/two") || family == "roots" {
						keep["bkids"] = true
					}
					for _, x := range s.sets {
						keep[x.f] = true
					}
					for _, l := range s.links {
						keep[l.f] = true
						if o := s.fspecOf(l.a, l.f).GetEOpposite(); o != nil {
							keep[o.GetName()] = true
						}
					}
					return true
				})
				mmKeep = keep
				if family != "same-names" {
					otherName = "Other" // than the classes of the first package
				}
				m = docMM()
				mmKeep, otherName = nil, "Node"
			}
			var cur *mspec
			c.Beat(func() string { return cur.String() })
			n := enumerate(func(ch *chooser) bool {
				if c.Expired() {
					return false
				}
				s := newSpec(m)
				cur = s
				gen(s, ch, depth)
				var bad string
				if p := mc.Panics(func() { bad = trip(s, ch) }); p != "" {
					bad = p
				}
				c.Res.States++
				c.Res.Transitions += int64(len(s.nodes) + len(s.links) + len(s.sets))
				c.Eval(s.String())
				c.Beat(nil)
				key := "trip/" + strings.Split(name, "/")[1] + "/" + family
				return bad == "" || c.Failf(key, "%s: %s: %s", name, s, bad)
			})
			c.Res.Traces += n
		}})
	}
	depthOf := func(form docForm, name string) int {
		if form.ext == "sqlite" {
			if !thorough && (form.name != "sql-memory" || strings.HasPrefix(name, "tree/") || strings.HasPrefix(name, "extra/")) {
				return 1
			}
			return 2
		}
		// deeper for the plain forms only: there are many others
		if thorough && form.options == nil && !form.alone && !form.objects && name != "extra/ids" {
			return 3
		}
		return 2
	}
	// an object alone is no place where its references can be looked up
	objectFamily := regexp.MustCompile(`^(tree|attr|text)/|map/string|map/contained|extra/types`)
	if exts[0] == "bin" {
		objectFamily = regexp.MustCompile(`.`)
	}
	oneRoot := regexp.MustCompile(`^tree/two`)
	for _, form := range docForms(exts) {
		for _, f := range docFamilies(thorough) {
			if oneRoot.MatchString(f.name) && form.name == "xml" {
				run("several-roots/xml", "several-roots", f.gen, 1, func(s *mspec, ch *chooser) string {
					own := map[int]int{}
					for _, r := range s.roots {
						own[r] = 0
					}
					return docTrip(s, form, own)
				})
			}
			if strings.HasPrefix(f.name, "text/") && (form.options != nil && form.name != "sql-memory" || form.alone || form.name == "sql-file" && !thorough) {
				continue
			}
			if !thorough && form.ext == "sqlite" && f.name == "attr/special" && form.name != "sql-memory" && form.name != "sql-defaults" {
				continue
			}
			if form.objects && !objectFamily.MatchString(f.name) {
				continue
			}
			run("one/"+form.name+"/"+f.name, f.name, f.gen, depthOf(form, f.name), func(s *mspec, ch *chooser) string {
				for _, l := range s.links {
					if !form.xml() && l.b < 0 && strings.HasPrefix(l.f, "nref") {
						return ""
					}
				}
				own := map[int]int{}
				if form.alone && strings.HasPrefix(f.name, "proxy/") {
					return "" // nothing to resolve their URIs against
				}
				if form.ext == "xml" || form.objects {
					if len(s.roots) == 0 {
						return ""
					}
					// such a document has one root
					for _, r := range s.roots[1:] {
						s.link(s.roots[0], "bkids", r)
					}
					s.roots = s.roots[:1]
				}
				for _, r := range s.roots {
					own[r] = 0
				}
				if form.objects {
					return objectTrip(s, form)
				}
				if form.alone {
					return aloneTrip(s, form)
				}
				return docTrip(s, form, own)
			})
		}
		if form.objects || form.alone {
			continue
		}
		if form.name == "sql-memory" {
			run("one/"+form.name+"/same-names", "same-names", func(s *mspec, c *chooser, d int) {
				s.root([]string{"Node", "q.Node"}[c.pick(2)])
				s.root([]string{"Node", "q.Node"}[c.pick(2)])
			}, 1, func(s *mspec, ch *chooser) string {
				return docTrip(s, form, map[int]int{0: 0, 1: 0})
			})
		}
		if form.ext == "bin" {
			continue // objects that are in no resource are saved along
		}
		run("dangling/"+form.name, "dangling", func(s *mspec, c *chooser, d int) {
			r := s.root("Node")
			k := s.child(r, "kids", "Node")
			n := s.node("Node") // nowhere
			s.child(n, "kid", "Node")
			for k, m := 0, 1+c.pick(d); k < m; k++ {
				f := []string{"ref", "refs", "nref", "nrefs", "oo", "om", "mm"}[c.pick(7)]
				if y := []int{2, 3, 1}[c.pick(3)]; s.free(k, f, y) {
					s.link(k, f, y)
				}
			}
			_ = k
		}, depthOf(form, "dangling"), func(s *mspec, ch *chooser) string {
			dangling := false
			for _, n := range s.nodes[:2] {
				for _, l := range n.refs {
					for _, x := range l {
						dangling = dangling || x >= 2
					}
				}
			}
			for _, l := range s.links {
				if form.ext == "sqlite" && strings.HasPrefix(l.f, "nref") {
					return "" // saved along
				}
			}
			docs := newDocConverter()
			objs := s.dynamic()
			r := newDoc(docSet(s.m, docs, form), "a."+form.ext, form)
			r.GetContents().Add(objs[0])
			r.SaveWithOptions(form.options)
			if p := problems(r); dangling != (p != "") {
				return fmt.Sprintf("problems %q", p)
			}
			return ""
		})
		for _, f := range modelFamilies() {
			if strings.HasPrefix(f.name, "refs/") && !strings.HasPrefix(f.name, "refs/n") || f.name == "map/references" {
				run("cross/"+form.name+"/"+f.name, f.name, f.gen, depthOf(form, f.name), func(s *mspec, ch *chooser) string {
					own := map[int]int{}
					for i, r := range s.roots {
						own[r] = i
					}
					return docTrip(s, form, own)
				})
			}
		}
		if form.ext == "sqlite" {
			continue // contained objects are saved along
		}
		run("parts/"+form.name, "parts", func(s *mspec, c *chooser, d int) {
			s.root("Node")
			for k := range d + 1 {
				p := c.pick(len(s.nodes))
				f := contFeats[c.pick(len(contFeats))]
				cl := []string{"Node", "Leaf"}[k%2]
				probe := s.node(cl)
				if !s.free(p, f, probe) {
					s.nodes = s.nodes[:probe]
					continue
				}
				s.link(p, f, probe)
			}
			if a := c.pick(len(s.nodes)); s.free(0, "ref", a) {
				s.link(0, "ref", a)
			}
		}, depthOf(form, "parts")-1, func(s *mspec, ch *chooser) string {
			own := map[int]int{0: 0}
			k := 1
			for n := 1; n < len(s.nodes); n++ {
				// the container of an object loaded alone is known once the list
				// that holds it resolves it: dynamic lists do not (C11)
				if len(s.nodes[n].refs["parent"]) == 0 && ch.bool() {
					own[n] = k
					k++
				}
			}
			return docTrip(s, form, own)
		})
	}
	return items
}
