package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C14: malformed documents and failing input and output.

func init() {
	register(&mc.Check{ID: "C14", Level: "fault_enumeration",
		Rule:        "read/: for documents of every form that together use every kind of feature, every point at which reading can stop, fail (with or without data), or deliver one byte or nothing at a time. bytes/: every deletion, repetition and replacement of every byte (binary: by all 256 values). tokens/: every replacement of every name, attribute value and text of XML documents by every other one and by special ones, every removal, repetition and swap of attributes and elements. alone/: decoding and encoding cut and changed documents in a resource without a URI, in a set or not. write/: every point at which writing can fail or take less than it was given, and closing fails. Every load must end without a panic; whatever is not well formed, cut, or not delivered must give an error on the resource; what loads without error must save and load again as the same; and the resource must load the good document afterwards.",
		Assumptions: []string{"well-formedness of XML is what encoding/xml finds, with one root element", "a change of a byte that leaves the document well formed may give a different model or an error", "readers and writers that fail may have delivered data before"},
		Items:       c14Items})
}

// faultDoc is a document to spoil.
type faultDoc struct {
	name string
	form docForm
	doc  []byte
	set  func(docs *docConverter) *ecore.EResourceSetImpl
	uri  string
	docs map[string][]byte
	text string
}

// faultModels are the models of the documents.
func faultModels(m *mm) map[string]*mspec {
	r := map[string]*mspec{}
	s := newSpec(m)
	a := s.root("Leaf")
	b := s.child(a, "kids", "Leaf")
	c := s.child(b, "kid", "Node")
	d := s.child(a, "ckids", "Leaf")
	e := s.child(a, "ckid", "Node")
	s.child(e, "bkid", "Base")
	for _, l := range []mlink{{a, "ref", b}, {a, "refs", c}, {a, "refs", d}, {a, "nref", e}, {b, "oo", c}, {a, "om", b}, {a, "om", c}, {c, "mm", a}, {c, "mm", d}, {d, "lref", a}, {d, "mm", a}} {
		s.link(l.a, l.f, l.b)
	}
	r["graph"] = s
	s = newSpec(m)
	a = s.root("Node")
	for _, t := range modelAttrTypes {
		v := sampleValues(t)
		s.set(a, "a_"+t, v[len(v)-1])
		s.set(a, "l_"+t, v[:2])
	}
	s.set(a, "u_string", "")
	s.set(a, "d_int", 5)
	r["values"] = s
	s = newSpec(m)
	a = s.root("Node")
	b = s.child(a, "map", "StrEntry")
	s.set(b, "key", "k")
	s.set(b, "value", "v")
	b = s.child(a, "omap", "ObjEntry")
	s.set(b, "key", "o")
	s.link(b, "value", a)
	b = s.child(a, "kmap", "KidEntry")
	s.set(b, "key", "c")
	s.child(b, "value", "Node")
	r["maps"] = s
	s = newSpec(m)
	a = s.root("Xtra")
	b = s.child(a, "xkids", "Ided")
	s.set(b, "id", "id1")
	c = s.child(a, "xkid", "q.Node")
	s.link(a, "xrefs", b)
	s.link(a, "xrefs", c)
	s.link(a, "uref", b)
	s.child(a, "ukids", "Conc")
	s.set(a, "color", 2)
	s.set(a, "colors", []any{1, 0})
	s.set(a, "code", "x")
	r["extra"] = s
	s = newSpec(m)
	a = s.root("Node")
	s.link(a, "ref", -1)
	s.link(a, "refs", -2)
	s.link(a, "refs", a)
	s.link(a, "refs", -1)
	s.link(a, "kid", -3)
	r["proxies"] = s
	s = newSpec(m)
	a = s.root("Node")
	b = s.root("Leaf")
	s.link(a, "ref", b)
	s.link(a, "om", b)
	s.child(b, "kid", "Node")
	r["roots"] = s
	return r
}

const faultEcore = `<?xml version="1.0" encoding="UTF-8"?>
<ecore:EPackage xmi:version="2.0" xmlns:xmi="http://www.omg.org/XMI" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:ecore="http://www.eclipse.org/emf/2002/Ecore" name="lib" nsURI="http:///lib" nsPrefix="lib">
  <eClassifiers xsi:type="ecore:EClass" name="A" abstract="true">
    <eStructuralFeatures xsi:type="ecore:EAttribute" name="n" eType="ecore:EDataType http://www.eclipse.org/emf/2002/Ecore#//EString" iD="true"/>
    <eStructuralFeatures xsi:type="ecore:EReference" name="bs" upperBound="-1" eType="#//B" containment="true" eOpposite="#//B/a"/>
    <eOperations name="f" eType="#//B" eExceptions="#//T">
      <eParameters name="x" eType="#//T"/>
    </eOperations>
  </eClassifiers>
  <eClassifiers xsi:type="ecore:EClass" name="B" eSuperTypes="#//A #//G">
    <eAnnotations source="s" references="#//A">
      <details key="k" value="v"/>
    </eAnnotations>
    <eStructuralFeatures xsi:type="ecore:EReference" name="a" eType="#//A" eOpposite="#//A/bs"/>
    <eStructuralFeatures xsi:type="ecore:EAttribute" name="t" eType="#//T" defaultValueLiteral="x"/>
  </eClassifiers>
  <eClassifiers xsi:type="ecore:EClass" name="G">
    <eStructuralFeatures xsi:type="ecore:EReference" name="g" eKeys="#//A/n" eType="#//A"/>
  </eClassifiers>
  <eClassifiers xsi:type="ecore:EEnum" name="E">
    <eLiterals name="l" value="1" literal="L"/>
  </eClassifiers>
  <eClassifiers xsi:type="ecore:EDataType" name="T" instanceClassName="java.lang.String"/>
  <eSubPackages name="sub" nsURI="http:///lib/sub" nsPrefix="sub"/>
</ecore:EPackage>
`

func faultDocs(m *mm, kinds ...string) []*faultDoc {
	var r []*faultDoc
	models := faultModels(m)
	for _, ext := range kinds {
		for _, form := range docForms([]string{ext}) {
			if form.ids == "uuid" || form.objects {
				continue
			}
			for _, name := range sortedKeys(models) {
				s := models[name]
				if name == "roots" && form.ext == "xml" {
					continue
				}
				if form.options != nil && name != "graph" && name != "roots" {
					continue
				}
				docs := newDocConverter()
				set := docSet(m, docs, form)
				res := newDoc(set, "dir/a."+ext, form)
				objs := s.dynamic()
				for _, x := range s.roots {
					res.GetContents().Add(objs[x])
				}
				res.SaveWithOptions(form.options)
				f := &faultDoc{name: form.name + "/" + name, form: form, uri: "dir/a." + ext, docs: docs.docs}
				f.set = func(docs *docConverter) *ecore.EResourceSetImpl { return docSet(m, docs, form) }
				f.doc = docs.docs[f.uri]
				r = append(r, f)
			}
		}
		if ext == "ecore" {
			f := &faultDoc{name: "ecore/metamodel", form: docForm{ext: "ecore"}, uri: "lib.ecore", docs: map[string][]byte{}, doc: []byte(faultEcore)}
			f.set = func(docs *docConverter) *ecore.EResourceSetImpl {
				s := ecore.NewEResourceSetImpl()
				s.SetURIConverter(docs)
				return s
			}
			r = append(r, f)
		}
	}
	for _, f := range r {
		f.text, _, _ = f.load(bytes.NewReader(f.doc), f.doc)
	}
	return r
}

// load loads from a reader; it gives the text of what came and the problems.
func (f *faultDoc) load(rd io.Reader, again []byte) (text, bad, problem string) {
	docs := newDocConverter()
	set := f.set(docs)
	r := newDoc(set, f.uri, f.form)
	if p := faultPanics(func() { r.LoadWithReader(rd, f.form.options) }); p != "" {
		return "", "loading: " + p, ""
	}
	problem = problems(r)
	if p := faultPanics(func() { text = textOf(listOf(r.GetContents()), nil, textOpts{resolved: set}) }); p != "" {
		return "", "reading what was loaded (problems: " + problem + "): " + p, ""
	}
	return text, f.after(docs, r, text, problem), problem
}

// after looks at a resource after a load: it can be saved, what it saves loads
// as the same when there was no problem, and it loads the good document once
// unloaded.
func (f *faultDoc) after(docs *docConverter, r ecore.EResource, text, problem string) string {
	if p := faultPanics(func() { r.SaveWithOptions(f.form.options) }); p != "" {
		return "saving what was loaded (problems: " + problem + "): " + p
	}
	saved := problems(r)
	odd := f.form.ids != "" || reNoFragment.MatchString(text) || strings.Contains(text, "<#") || strings.Contains(text, "<?") || unsaved(listOf(r.GetContents()), true)
	if doc := docs.docs[f.uri]; !odd && problem == "" && saved == "" && (f.form.ext != "xml" || r.GetContents().Size() == 1) && r.GetContents().Size() > 0 {
		set := f.set(docs)
		r2 := newDoc(set, f.uri, f.form)
		got := ""
		if p := faultPanics(func() {
			r2.LoadWithReader(bytes.NewReader(doc), f.form.options)
			got = textOf(listOf(r2.GetContents()), nil, textOpts{resolved: set})
		}); p != "" {
			return fmt.Sprintf("loading %q, saved after a load without problems: %s", doc, p)
		}
		if p := problems(r2); p != "" {
			return fmt.Sprintf("loading %q, saved after a load without problems: %s", doc, p)
		}
		if d := diffText(text, got); d != "" {
			return fmt.Sprintf("saved again as %q, it loads otherwise: %s", doc, d)
		}
	}
	if f.text == "" {
		return ""
	}
	var got string
	if p := faultPanics(func() {
		r.Unload()
		r.LoadWithReader(bytes.NewReader(f.doc), f.form.options)
		got = textOf(listOf(r.GetContents()), nil, textOpts{resolved: r.GetResourceSet().(*ecore.EResourceSetImpl)})
	}); p != "" {
		return "loading the good document afterwards: " + p
	}
	if p := problems(r); p != "" {
		return "loading the good document afterwards: " + p
	}
	if d := diffText(f.text, got); d != "" {
		return "loading the good document afterwards: " + d
	}
	return ""
}

// unsaved tells whether objects hold what isn't saved: values of transient
// features and of proxies.
func unsaved(objs []ecore.EObject, root bool) bool {
	for _, o := range objs {
		if root && o.(ecore.EObjectInternal).EInternalContainer() != nil {
			return true
		}
		for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			ref, _ := f.(ecore.EReference)
			if ref != nil && ref.IsContainer() || f.IsDerived() {
				continue
			}
			if (f.IsTransient() || o.EIsProxy()) && o.EIsSet(f) {
				return true
			}
		}
		if unsaved(listOf(o.EContents().(ecore.EObjectList).GetUnResolvedList()), false) {
			return true
		}
	}
	return false
}

// faultReader delivers a document with faults.
type faultReader struct {
	data  []byte
	at    int
	stop  int   // where the fault is
	err   error // what it gives
	with  bool  // with the last data
	chunk int
	zero  int // empty reads before each
	left  int
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.left > 0 {
		r.left--
		return 0, nil
	}
	r.left = r.zero
	if r.at >= r.stop {
		return 0, r.err
	}
	n := min(len(p), r.stop-r.at)
	if r.chunk > 0 {
		n = min(n, r.chunk)
	}
	copy(p, r.data[r.at:r.at+n])
	r.at += n
	if r.with && r.at == r.stop {
		return n, r.err
	}
	return n, nil
}

// wellFormed tells whether a text is a well-formed XML document with one root.
func wellFormed(doc []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(doc))
	d.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) { return nil, errors.New("charset") }
	depth, roots := 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			return depth == 0 && roots == 1
		}
		if err != nil {
			// other encodings are not looked at
			return strings.Contains(err.Error(), "charset")
		}
		switch t.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
		case xml.EndElement:
			depth--
		}
	}
}

func (f *faultDoc) isXML() bool { return f.form.ext != "bin" }

// judge loads a spoilt document.
func (f *faultDoc) judge(doc []byte) string {
	_, bad, problem := f.load(bytes.NewReader(doc), f.doc)
	if bad != "" {
		return bad
	}
	if f.isXML() && problem == "" && !wellFormed(doc) {
		return "the document is not well formed, and no error is reported"
	}
	return ""
}

// alone decodes into a resource that has no URI and no resource set, and
// encodes what it found.
func (f *faultDoc) alone(doc []byte) string {
	set := f.set(newDocConverter())
	codec := set.GetCodecRegistry().GetCodec(ecore.NewURI(f.uri))
	for _, with := range []bool{true, false} {
		r := ecore.NewEResourceImpl()
		if with {
			set.GetResources().Add(r)
		}
		if p := faultPanics(func() {
			codec.NewDecoder(r, bytes.NewReader(doc), f.form.options).DecodeResource()
		}); p != "" {
			return "decoding: " + p
		}
		if f.isXML() && problems(r) == "" && !wellFormed(doc) {
			return "the document is not well formed, and no error is reported"
		}
		r.GetErrors().Clear()
		if p := faultPanics(func() {
			for _, c := range []ecore.ECodec{codec, &ecore.JSONCodec{}} {
				var out bytes.Buffer
				c.NewEncoder(r, &out, f.form.options).EncodeResource()
			}
		}); p != "" {
			return "encoding what was decoded: " + p
		}
		// there is no codec for it
		if p := faultPanics(func() { r.SaveWithWriter(&bytes.Buffer{}, f.form.options); r.Save(); r.Load() }); p != "" {
			return "saving without a URI: " + p
		}
	}
	return ""
}

var faultBytes = []byte("<>\"&/#:; =x0\x00\xff\n.@-'!?[")

func spliced(doc []byte, i, j int, with string) []byte {
	r := make([]byte, 0, len(doc)+len(with))
	r = append(r, doc[:i]...)
	r = append(r, with...)
	return append(r, doc[j:]...)
}

var (
	reAttr       = regexp.MustCompile(`([\w:.-]+)="([^"]*)"`)
	reName       = regexp.MustCompile(`</?([\w:.-]+)`)
	reTag        = regexp.MustCompile(`<[^?!][^>]*>`)
	reNoFragment = regexp.MustCompile(`<[^#>]*>`)
	reText       = regexp.MustCompile(`>([^<>\n]+)<`)
	special      = []string{"", " ", "#", "#/", "#//", "/", "//", "#nope", "#//@nope", "#//@kids.9", "#//@kids.-1", "#//@kids.99999999999999999999", "#//@kids.0/@x", "#/-1", "#/1", "#/99999999999999999999", "x:y", "x:y #/", "p:Base #/", "p:Base x#/", "nope.xml#/", "dir/a.xml#/", "true", "-1", "99999999999999999999999", "p:Base", "p:Abs", "p:Nope", "q:Node", "p:StrEntry", "p_1:Node", "ecore:EClass", "ecore:EString", "ecore:EObject", ":", "a:", ":a", "%zz", "http://[", "1.5", "é", "#//A", "#//A #//A", "#//B", "#//E/l", "#//T", "ecore:EClass http://www.eclipse.org/emf/2002/Ecore#//EObject", "lib.ecore#//A"}
)

// tokenChanges calls with every change of names, values and structure.
func (f *faultDoc) tokenChanges(try func(what string, doc []byte) bool) {
	doc := f.doc
	s := string(doc)
	all := try
	try = func(what string, doc []byte) bool {
		// a containment reference would take the object out of the base package
		return bytes.Contains(doc, []byte(`href="http://www.eclipse.org`)) || bytes.Contains(doc, []byte(`href="ecore:EClass http://www.eclipse.org`)) || all(what, doc)
	}
	values, names := map[string]bool{}, map[string]bool{}
	for _, m := range reAttr.FindAllStringSubmatch(s, -1) {
		names[m[1]] = true
		values[m[2]] = true
	}
	for _, m := range reName.FindAllStringSubmatch(s, -1) {
		names[m[1]] = true
	}
	for _, m := range reText.FindAllStringSubmatch(s, -1) {
		values[m[1]] = true
	}
	for _, x := range special {
		values[x] = true
	}
	for _, x := range []string{"nope", "p:nope", "x:nope", "xsi:type", "xsi:nil", "href", "xmi:id", "xmlns:p", "xmlns", "xmlns:x", "name", "ref", "refs", "kid", "kids", "ckid", "ckids", "cparent", "parent", "oo", "mm", "map", "a_int", "l_int", "tref", "tkid", "p:Node", "xmi:XMI", "ecore:EClass", "eClassifiers", "eType", "eSuperTypes", "eOpposite", "eContainer", "eClass", "ePackage", "eFactoryInstance", "key", "value"} {
		names[x] = true
	}
	vs, ns := sortedKeys(values), sortedKeys(names)
	for _, m := range reAttr.FindAllStringSubmatchIndex(s, -1) {
		for _, v := range vs {
			if !try(fmt.Sprintf("%s=%q", s[m[2]:m[3]], v), spliced(doc, m[4], m[5], v)) {
				return
			}
		}
		for _, n := range ns {
			if !try(fmt.Sprintf("attribute %s as %s", s[m[0]:m[1]], n), spliced(doc, m[2], m[3], n)) {
				return
			}
		}
		if !try("without "+s[m[0]:m[1]], spliced(doc, m[0], m[1], "")) || !try("twice "+s[m[0]:m[1]], spliced(doc, m[0], m[0], s[m[0]:m[1]]+" ")) {
			return
		}
	}
	for _, m := range reText.FindAllStringSubmatchIndex(s, -1) {
		for _, v := range vs {
			if !try(fmt.Sprintf("text %s as %q", s[m[2]:m[3]], v), spliced(doc, m[2], m[3], v)) {
				return
			}
		}
	}
	// elements
	type elem struct{ from, to, close int }
	var open []elem
	var elems []elem
	for _, m := range reTag.FindAllStringIndex(s, -1) {
		switch {
		case s[m[0]+1] == '/':
			e := open[len(open)-1]
			open = open[:len(open)-1]
			elems = append(elems, elem{e.from, m[1], m[0]})
		case s[m[1]-2] == '/':
			elems = append(elems, elem{m[0], m[1], -1})
		default:
			open = append(open, elem{m[0], m[1], -1})
		}
	}
	for i, e := range elems {
		body := s[e.from:e.to]
		name := reName.FindStringSubmatch(body)[1]
		for _, n := range ns {
			d := spliced(doc, e.from+1, e.from+1+len(name), n)
			if e.close >= 0 {
				c := e.close + 2 + len(n) - len(name)
				d = spliced(d, c, c+len(name), n)
			}
			if !try(fmt.Sprintf("element %d %s as %s", i, name, n), d) {
				return
			}
		}
		for _, t := range []string{`xsi:type="p:Base"`, `xsi:type="p:Leaf"`, `xsi:type="p:Nope"`, `xsi:nil="true"`, `href="#/"`, `href="x.xml#/"`, `nope="1"`, `href=""`, `xsi:type="ecore:EClass"`, `xsi:type="ecore:EString"`, `xmlns:p="http://nope"`} {
			if !try(fmt.Sprintf("element %d %s with %s", i, name, t), spliced(doc, e.from+1+len(name), e.from+1+len(name), " "+t)) {
				return
			}
		}
		for j, e2 := range elems {
			if e2.from <= e.from && e.to <= e2.to {
				continue // around it
			}
			// move a copy before the other one
			if !try(fmt.Sprintf("element %d %s also before element %d", i, name, j), spliced(doc, e2.from, e2.from, body)) {
				return
			}
			if e.from <= e2.from && e2.to <= e.to {
				continue
			}
			d := spliced(doc, e2.from, e2.from, body)
			k := e.from
			if e2.from <= e.from {
				k += len(body)
			}
			if !try(fmt.Sprintf("element %d %s moved before element %d", i, name, j), spliced(d, k, k+len(body), "")) {
				return
			}
		}
		if !try(fmt.Sprintf("without element %d %s", i, name), spliced(doc, e.from, e.to, "")) ||
			!try(fmt.Sprintf("twice element %d %s", i, name), spliced(doc, e.from, e.from, body)) ||
			!try(fmt.Sprintf("text before element %d", i), spliced(doc, e.from, e.from, "text")) ||
			!try(fmt.Sprintf("element %d %s in it itself", i, name), spliced(doc, e.from, e.to, body[:len(body)-len(body)+1]+name+">"+body+"</"+name+">")) {
			return
		}
	}
}

func c14Items(tier string) []mc.Item {
	thorough := tier == "thorough"
	var items []mc.Item
	m0 := docMM()
	all := []string{"bin", "ecore", "xml"}
	item := func(f *faultDoc, group string, run func(c *mc.Ctx, f *faultDoc, try func(what string, judge func() string) bool)) {
		name := f.name
		items = append(items, mc.Item{Name: group + "/" + name, Run: func(c *mc.Ctx) {
			var f *faultDoc
			m := docMM()
			for _, x := range faultDocs(m, strings.Split(strings.Split(name, "/")[0], "-")[0]) {
				if x.name == name {
					f = x
				}
			}
			cur := ""
			c.Beat(func() string { return group + "/" + name + ": " + cur })
			run(c, f, func(what string, judge func() string) bool {
				if c.Expired() {
					return false
				}
				cur = what
				bad := judge()
				c.Res.States++
				c.Res.Traces++
				c.Res.Transitions += int64(len(f.doc))
				c.Eval(what)
				c.Beat(nil)
				key := group + "/" + name
				return bad == "" || c.Failf(key, "%s/%s: %s: %s", group, name, what, bad)
			})
		}})
	}
	for _, f := range faultDocs(m0, all...) {
		item(f, "good", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) {
			try("as it is", func() string {
				_, bad, problem := f.load(bytes.NewReader(f.doc), f.doc)
				if problem != "" {
					return fmt.Sprintf("%q: %s", f.doc, problem)
				}
				return bad
			})
		})
		item(f, "read", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) {
			end := len(f.doc)
			if f.isXML() {
				end = bytes.LastIndexByte(f.doc, '>') + 1
			}
			for k := 0; k <= len(f.doc); k++ {
				for _, r := range []faultReader{
					{err: io.EOF}, {err: io.EOF, with: true}, {err: io.ErrUnexpectedEOF}, {err: errors.New("fault")}, {err: errors.New("fault"), with: true},
					{err: io.EOF, chunk: 1}, {err: errors.New("fault"), chunk: 1}, {err: io.EOF, chunk: 7, zero: 3}} {
					r.data, r.stop = f.doc, k
					if (r.chunk != 0 || r.zero != 0) && k != len(f.doc) && k != len(f.doc)/2 {
						continue
					}
					if !try(fmt.Sprintf("reading stops at %d of %d with %v (data with it: %v, chunks %d)", k, len(f.doc), r.err, r.with, r.chunk), func() string {
						text, bad, problem := f.load(&r, f.doc)
						if bad != "" {
							return bad
						}
						fault := k < end || r.err != io.EOF && f.isXML()
						if fault && problem == "" {
							return "no error is reported"
						}
						if r.err == io.EOF && k >= end && (problem != "" || text != f.text) {
							return "the whole document was delivered: " + problem + diffText(f.text, text)
						}
						return ""
					}) {
						return
					}
				}
			}
		})
		item(f, "bytes", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) {
			with := faultBytes
			if !f.isXML() {
				with = nil
				for b := range 256 {
					// a quarter of the values in long documents: each kind of item with its sizes
					if !thorough && len(f.doc) > 300 && b%16 > 4 && b < 0xc0 {
						continue
					}
					with = append(with, byte(b))
				}
			}
			for k := range f.doc {
				for _, b := range with {
					if b != f.doc[k] && !try(fmt.Sprintf("byte %d (%q) as %q", k, f.doc[k], b), func() string {
						return f.judge(spliced(f.doc, k, k+1, string([]byte{b})))
					}) {
						return
					}
				}
				if !try(fmt.Sprintf("without byte %d", k), func() string { return f.judge(spliced(f.doc, k, k+1, "")) }) ||
					!try(fmt.Sprintf("byte %d twice", k), func() string { return f.judge(spliced(f.doc, k, k, string(f.doc[k:k+1]))) }) {
					return
				}
				if thorough {
					for n := 2; n <= 12 && k+n <= len(f.doc); n++ {
						if !try(fmt.Sprintf("without %d bytes at %d", n, k), func() string { return f.judge(spliced(f.doc, k, k+n, "")) }) ||
							!try(fmt.Sprintf("%d bytes at %d twice", n, k), func() string { return f.judge(spliced(f.doc, k, k, string(f.doc[k:k+n]))) }) {
							return
						}
					}
				}
			}
		})
		item(f, "alone", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) {
			try("as it is", func() string { return f.alone(f.doc) })
			for k := range f.doc {
				if !try(fmt.Sprintf("without what follows %d", k), func() string { return f.alone(f.doc[:k]) }) {
					return
				}
				for _, b := range []byte("<\"#\xff\xca") {
					if !try(fmt.Sprintf("byte %d as %q", k, b), func() string { return f.alone(spliced(f.doc, k, k+1, string([]byte{b}))) }) {
						return
					}
				}
			}
		})
		if thorough && !f.isXML() {
			item(f, "pairs", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) {
				with := []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0x90, 0x91, 0xa0, 0xa1, 0xc0, 0xc2, 0xc3, 0xc4, 0xca, 0xcb, 0xcc, 0xd1, 0xd3, 0xd7, 0xd9, 0xdc, 0xdd, 0xdf, 0xfe, 0xff}
				for k := range f.doc {
					for d := 1; d <= 3 && k+d < len(f.doc); d++ {
						for _, a := range with {
							for _, b := range with {
								if !try(fmt.Sprintf("bytes %d and %d as %x and %x", k, k+d, a, b), func() string {
									return f.judge(spliced(spliced(f.doc, k, k+1, string([]byte{a})), k+d, k+d+1, string([]byte{b})))
								}) {
									return
								}
							}
						}
					}
				}
			})
		}
		if f.isXML() {
			item(f, "tokens", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) {
				f.tokenChanges(func(what string, doc []byte) bool {
					return try(what, func() string { return f.judge(doc) })
				})
			})
			item(f, "names", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) {
				f.unknowns(func(what string, doc []byte) bool {
					return try(what, func() string {
						_, bad, problem := f.load(bytes.NewReader(doc), f.doc)
						if bad == "" && problem == "" {
							bad = "no error is reported"
						}
						return bad
					})
				})
			})
		}
	}
	for _, f := range faultDocs(m0, "bin", "ecore", "xml") {
		item(f, "write", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) { c14Writes(f, f.form.ext, try) })
	}
	for _, f := range faultDocs(m0, "xml") {
		item(f, "write-json", func(c *mc.Ctx, f *faultDoc, try func(string, func() string) bool) { c14Writes(f, "json", try) })
	}
	return items
}

// unknowns calls with every name, type and reference made unknown, one by one.
func (f *faultDoc) unknowns(try func(what string, doc []byte) bool) {
	s := string(f.doc)
	for _, m := range reAttr.FindAllStringSubmatchIndex(s, -1) {
		n, v := s[m[2]:m[3]], s[m[4]:m[5]]
		if strings.HasPrefix(n, "xmlns") || n == "version" || n == "encoding" || n == "xmi:version" || n == "href" {
			continue
		}
		if n == "xsi:type" {
			for _, t := range []string{"p:Unknown", "u:Node", "Unknown", "", "p:Abs"} {
				if f.name == "ecore/metamodel" && t == "p:Abs" {
					t = "ecore:EClassifier"
				}
				if t == "" {
					continue
				}
				if !try(fmt.Sprintf("type %s as %q", v, t), spliced(f.doc, m[4], m[5], t)) {
					return
				}
			}
			continue
		}
		if n != "_id" && !try("unknown attribute for "+s[m[0]:m[1]], spliced(f.doc, m[2], m[3], "unknown")) {
			return
		}
		if strings.HasPrefix(v, "#") {
			for _, ref := range regexp.MustCompile(`#[^ ]*`).FindAllStringIndex(v, -1) {
				for _, t := range []string{"#//@unknown", "#//@kids.7", "#unknown", "#/7"} {
					if !try(fmt.Sprintf("reference %s in %s as %s", v[ref[0]:ref[1]], s[m[0]:m[1]], t), spliced(f.doc, m[4]+ref[0], m[4]+ref[1], t)) {
						return
					}
				}
			}
		}
	}
	depth := 0
	for _, m := range reTag.FindAllStringIndex(s, -1) {
		tag := s[m[0]:m[1]]
		if tag[1] == '/' {
			depth--
			continue
		}
		name := reName.FindStringSubmatch(tag)[1]
		at := m[0] + 1
		insert := func(t string) []byte { return spliced(f.doc, m[0], m[0], t) }
		if depth > 0 {
			for _, t := range []string{`<unknown/>`, `<unknown a="1"><kids/></unknown>`, `<unknown>text</unknown>`, `<x:unknown xmlns:x="http://x"/>`} {
				if !try("with "+t+" before "+tag, insert(t)) {
					return
				}
			}
		}
		if strings.HasSuffix(tag, "/>") {
			if !try("unknown element for "+tag, spliced(f.doc, at, at+len(name), "unknown")) {
				return
			}
		} else {
			depth++
		}
		if !strings.HasSuffix(tag, "/>") && s[m[1]] != '\n' {
			continue // a text
		}
		if name == "xmi:XMI" {
			continue
		}
		if !try("unknown attribute in "+tag, spliced(f.doc, at+len(name), at+len(name), ` unknown="1"`)) {
			return
		}
	}
}

// faultWriter fails after some bytes, or takes less than given.
type faultWriter struct {
	left  int
	short bool
	data  []byte
}

func (w *faultWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.left)
	w.left -= n
	w.data = append(w.data, p[:n]...)
	if n < len(p) && !w.short {
		return n, errors.New("fault")
	}
	return n, nil
}

type faultConverter struct {
	*docConverter
	w        io.WriteCloser
	r        io.ReadCloser
	createdW error
	createdR error
}

func (d *faultConverter) CreateReader(*ecore.URI) (io.ReadCloser, error) { return d.r, d.createdR }
func (d *faultConverter) CreateWriter(*ecore.URI) (io.WriteCloser, error) {
	return d.w, d.createdW
}

type failingClose struct {
	io.Writer
	io.Reader
}

func (failingClose) Close() error { return errors.New("fault at close") }

func c14Writes(f *faultDoc, ext string, try func(string, func() string) bool) {
	uri := strings.TrimSuffix(f.uri, f.form.ext) + ext
	var r ecore.EResource
	load := func() {
		docs := newDocConverter()
		r = newDoc(f.set(docs), f.uri, f.form)
		r.LoadWithReader(bytes.NewReader(f.doc), f.form.options)
		r.SetURI(ecore.NewURI(uri))
	}
	save := func(w io.Writer) string {
		if p := faultPanics(func() {
			if ext == "json" {
				reg := ecore.NewECodecRegistryImpl()
				reg.GetExtensionToCodecMap()["json"] = &ecore.JSONCodec{}
				reg.GetCodec(r.GetURI()).NewEncoder(r, w, nil).EncodeResource()
				return
			}
			r.SaveWithWriter(w, f.form.options)
		}); p != "" {
			return p
		}
		return ""
	}
	load()
	var good bytes.Buffer
	if p := save(&good); p != "" {
		try("saving", func() string { return p })
		return
	}
	if !try("saving", func() string {
		if ext == "json" && !json.Valid(good.Bytes()) {
			return fmt.Sprintf("not JSON: %q", good.Bytes())
		}
		return problems(r)
	}) {
		return
	}
	for k := 0; k <= good.Len(); k++ {
		for _, short := range []bool{false, true} {
			if !try(fmt.Sprintf("writing stops at %d of %d (without an error: %v)", k, good.Len(), short), func() string {
				r.GetErrors().Clear()
				w := &faultWriter{left: k, short: short}
				if p := save(w); p != "" {
					return p
				}
				p := problems(r)
				if k == good.Len() {
					if p != "" || !bytes.Equal(w.data, good.Bytes()) {
						return fmt.Sprintf("wrote %q, problems %s", w.data, p)
					}
				} else if p == "" {
					return fmt.Sprintf("no error is reported, %d bytes written", len(w.data))
				}
				return ""
			}) {
				return
			}
		}
	}
	if ext == "json" {
		return
	}
	check := func(what string, conv *faultConverter, act func()) bool {
		return try(what, func() string {
			load()
			conv.docConverter = newDocConverter()
			r.GetResourceSet().SetURIConverter(conv)
			if p := faultPanics(act); p != "" {
				return p
			}
			if problems(r) == "" {
				return "no error is reported"
			}
			return ""
		})
	}
	_ = check("closing the writer fails", &faultConverter{w: failingClose{Writer: &bytes.Buffer{}}}, func() { r.SaveWithOptions(f.form.options) }) &&
		check("no writer", &faultConverter{createdW: errors.New("fault")}, func() { r.SaveWithOptions(f.form.options) }) &&
		check("no reader", &faultConverter{createdR: errors.New("fault")}, func() { r.Unload(); r.LoadWithOptions(f.form.options) })
}

// faultPanics calls and gives what it panics with, and where.
func faultPanics(f func()) string {
	p := mc.Panics(f)
	if p != "" {
		p += "\n" + mc.LastStack()
	}
	return p
}
