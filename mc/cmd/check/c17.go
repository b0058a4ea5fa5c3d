package main

import (
	"fmt"
	"net/url"
	"regexp"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C17: URIs against the text decomposition and algorithms of RFC 3986.

func init() {
	register(&mc.Check{ID: "C17", Level: "model_checking",
		Rule:        "parse/: every text made of up to 5 (thorough 6) tokens of an alphabet of URI pieces; the parts of what parses are compared with the RFC 3986 decomposition of the text, and so are those of what normalizing, trimming and rebuilding gives. resolve/: every pair of URIs out of all combinations of schemes, authorities, paths, queries and fragments: resolving against the algorithm of RFC 3986 5.2, relativizing against the law that resolving gives the URI back. prefix/: every triple of URIs for prefix replacement. All results are also compared with what parsing their text afresh gives (whatever other URIs exist).",
		Assumptions: []string{"paths are compared as decoded text, up to . and .. segments and duplicate slashes", "a .. segment above the root stays (RFC 2396)", "empty user, port, query and fragment count as absent"},
		Items:       c17Items})
}

// uparts are the decoded parts of a URI.
type uparts struct {
	scheme, user, pass, host, port, path, query, frag string
}

var rfcRE = regexp.MustCompile(`^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$`)

func unescape(s string) string {
	u, err := url.PathUnescape(s)
	if err != nil {
		return s
	}
	return u
}

// rfcSplit takes a text apart by the regular expression of RFC 3986 appendix B.
func rfcSplit(t string) uparts {
	m := rfcRE.FindStringSubmatch(t)
	p := uparts{scheme: strings.ToLower(m[2]), path: unescape(m[5]), query: m[7], frag: unescape(m[9])}
	a := m[4]
	if i := strings.LastIndexByte(a, '@'); i >= 0 {
		ui := a[:i]
		a = a[i+1:]
		if j := strings.IndexByte(ui, ':'); j >= 0 {
			p.user, p.pass = unescape(ui[:j]), unescape(ui[j+1:])
		} else {
			p.user = unescape(ui)
		}
	}
	if j := strings.LastIndexByte(a, ':'); j > strings.LastIndexByte(a, ']') {
		p.host, p.port = unescape(a[:j]), a[j+1:]
	} else {
		p.host = unescape(a)
	}
	return p
}

func partsOf(u *ecore.URI) uparts {
	return uparts{u.Scheme(), u.Username(), u.Password(), u.Host(), u.Port(), u.Path(), u.Query(), u.Fragment()}
}

func (p uparts) authority() string {
	s := p.user
	if p.pass != "" {
		s += ":" + p.pass
	}
	if s != "" {
		s += "@"
	}
	s += p.host
	if p.port != "" {
		s += ":" + p.port
	}
	return s
}

// normPath removes . and .. segments and duplicate slashes.
func normPath(p string) string {
	if p == "" {
		return ""
	}
	abs := p[0] == '/'
	dir := strings.HasSuffix(p, "/")
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch {
		case s == "" || s == ".":
			dir = dir || s == "."
			continue
		case s == ".." && len(out) > 0 && out[len(out)-1] != "..":
			out = out[:len(out)-1]
			dir = true
			continue
		}
		dir = strings.HasSuffix(p, "/")
		out = append(out, s)
	}
	r := strings.Join(out, "/")
	if abs {
		r = "/" + r
	}
	if dir && r != "" && !strings.HasSuffix(r, "/") && !strings.HasSuffix(r, "..") {
		r += "/"
	}
	return r
}

// norm gives the parts with the path in normal form; a path whose last
// segment is .. is the same with a slash at the end.
func (p uparts) norm() uparts {
	p.path = normPath(p.path)
	if strings.HasSuffix(p.path, "/..") || p.path == ".." {
		p.path += "/"
	}
	return p
}

// rfcResolve is RFC 3986 5.2.2.
func rfcResolve(b, r uparts) uparts {
	if r.scheme != "" {
		return r.norm()
	}
	if r.authority() != "" {
		r.scheme = b.scheme
		return r.norm()
	}
	t := b
	t.frag = r.frag
	if r.path == "" {
		if r.query != "" {
			t.query = r.query
		}
		return t.norm()
	}
	t.query = r.query
	switch {
	case r.path[0] == '/':
		t.path = r.path
	case b.authority() != "" && b.path == "":
		t.path = "/" + r.path
	default:
		t.path = b.path[:strings.LastIndexByte(b.path, '/')+1] + r.path
	}
	return t.norm()
}

// okURI compares a URI that an operation gave with the expected parts and
// with what its own text says.
func okURI(how string, u *ecore.URI, want uparts) string {
	if u == nil {
		return how + " gives nothing"
	}
	got := partsOf(u)
	if got.norm() != want.norm() {
		return fmt.Sprintf("%s gives %q with parts %q, expected %q", how, u.String(), got, want)
	}
	if t := rfcSplit(u.String()); t != got {
		return fmt.Sprintf("%s gives a URI with parts %q whose text %q says %q", how, got, u.String(), t)
	}
	v, err := ecore.ParseURI(u.String())
	if err != nil || partsOf(v) != got {
		return fmt.Sprintf("%s gives %q with parts %q, but parsing its text gives %v %v", how, u.String(), got, v, err)
	}
	return ""
}

func c17Parse(t string) (ok bool, bad string) {
	u, err := ecore.ParseURI(t)
	if err != nil || u == nil {
		return false, ""
	}
	if u.String() != t {
		return true, fmt.Sprintf("prints as %q", u.String())
	}
	want := rfcSplit(t)
	if strings.Contains(want.host, ":") && want.host[0] != '[' {
		return true, "" // not a host
	}
	if got := partsOf(u); got != want {
		return true, fmt.Sprintf("has parts %q, expected %q", got, want)
	}
	if v := ecore.NewURI(t); !v.Equals(u) || !u.Equals(v) {
		return true, "is not equal to itself parsed again"
	}
	if v := ecore.NewURIFromComponents(u.Scheme(), u.Username(), u.Password(), u.Host(), u.Port(), u.Path(), u.Query(), u.Fragment()); !v.Equals(u) || !u.Equals(v) {
		return true, fmt.Sprintf("is not equal to %q of the same components", v.String())
	}
	if v := ecore.NewURIFromComponents(u.Scheme(), u.Username(), u.Password(), u.Host(), u.Port(), u.Path()+"x", u.Query(), u.Fragment()); v.Equals(u) || u.Equals(v) {
		return true, fmt.Sprintf("is equal to %q", v.String())
	}
	if u.IsAbsolute() != (want.scheme != "") {
		return true, "IsAbsolute is wrong"
	}
	if a := u.Authority(); want.host != "" && a != want.authority() || want.host == "" && a != "" {
		return true, fmt.Sprintf("has authority %q, expected %q", a, want.authority())
	}
	if u.IsEmpty() != (t == "") && want == (uparts{}) == false {
		return true, "IsEmpty is wrong"
	}
	n := u.Normalize()
	if s := okURI("Normalize", n, want); s != "" {
		return true, s
	}
	if n.Normalize().String() != n.String() {
		return true, fmt.Sprintf("normalizes to %q, and that to %q", n.String(), n.Normalize().String())
	}
	for _, seg := range strings.Split(strings.TrimLeft(n.Path(), "./"), "/") {
		if seg == "." || seg == ".." {
			return true, fmt.Sprintf("normalizes to %q", n.String())
		}
	}
	w := want
	w.frag = ""
	if s := okURI("TrimFragment", u.TrimFragment(), w); s != "" {
		return true, s
	}
	if u.TrimFragment().Path() != u.Path() {
		return true, "TrimFragment changes the path"
	}
	w = want
	w.query = ""
	if s := okURI("TrimQuery", u.TrimQuery(), w); s != "" {
		return true, s
	}
	if s := okURI("a builder", ecore.NewURIBuilder(u).URI(), want); s != "" {
		return true, s
	}
	w = want
	w.frag = "x%#? y"
	if s := okURI("SetFragment", ecore.NewURIBuilder(u).SetFragment(w.frag).URI(), w); s != "" {
		return true, s
	}
	return true, ""
}

// relatable: whether base and ref are of the same kind so that a relative
// reference can be resolved again.
func relatable(b, r uparts) bool {
	if r.scheme != "" || r.authority() != "" && b.scheme == "" {
		return true // ref itself can be the answer
	}
	if b.scheme != "" || b.authority() != "" {
		return false
	}
	if r.path == "" || b.path == "" {
		return false
	}
	if r.path[0] == '/' {
		return true
	}
	if b.path[0] == '/' {
		return false
	}
	// the base must not be above what can be named
	bs, rs := strings.Split(normPath(b.path), "/"), strings.Split(normPath(r.path), "/")
	bs = bs[:len(bs)-1]
	if normPath(r.path) == "" || normPath(b.path) == "" || strings.HasSuffix(normPath(r.path), "..") || strings.HasSuffix(normPath(b.path), "..") {
		return false
	}
	i := 0
	for i < len(bs) && i < len(rs)-1 && bs[i] == rs[i] {
		i++
	}
	for _, s := range bs[i:] {
		if s == ".." {
			return false
		}
	}
	return true
}

func c17Pair(bt, rt string) string {
	b, r := ecore.NewURI(bt), ecore.NewURI(rt)
	pb, pr := partsOf(b), partsOf(r)
	if s := okURI("Resolve", b.Resolve(r), rfcResolve(pb, pr)); s != "" {
		return s
	}
	rel := b.Relativize(r)
	if rel == nil {
		return "Relativize gives nothing"
	}
	if t := rfcSplit(rel.String()); t != partsOf(rel) {
		return fmt.Sprintf("Relativize gives a URI with parts %q whose text %q says %q", partsOf(rel), rel.String(), t)
	}
	if relatable(pb, pr) {
		if s := okURI(fmt.Sprintf("Relativize gives %q, and resolving that", rel.String()), b.Resolve(rel), pr); s != "" {
			return s
		}
	}
	return ""
}

func c17Prefix(ut, ot, nt string) string {
	u, o, n := ecore.NewURI(ut), ecore.NewURI(ot), ecore.NewURI(nt)
	pu, po, pn := partsOf(u), partsOf(o), partsOf(n)
	got := u.ReplacePrefix(o, n)
	if pu.scheme != po.scheme || pu.authority() != po.authority() || !strings.HasPrefix(pu.path, po.path) {
		if got != nil {
			return fmt.Sprintf("ReplacePrefix gives %q although the URI does not begin so", got.String())
		}
		return ""
	}
	want := pn
	want.path, want.query, want.frag = pn.path+pu.path[len(po.path):], pu.query, pu.frag
	if want.authority() != "" && want.path != "" && want.path[0] != '/' {
		return "" // no such URI
	}
	if want.authority() == "" && want.scheme == "" && strings.Contains(strings.SplitN(want.path, "/", 2)[0], ":") {
		return ""
	}
	return okURI("ReplacePrefix", got, want)
}

func c17Items(tier string) []mc.Item {
	thorough := tier == "thorough"
	tokens := []string{"s:", "//", "h", "/", "a", "..", ".", ":", "?", "#", "%20", "%23", "@", "[::1]", "7", "%25"}
	depth := 5
	if thorough {
		depth = 6
	}
	var items []mc.Item
	for i, first := range tokens {
		items = append(items, mc.Item{Name: fmt.Sprintf("parse/%d", i), Run: func(c *mc.Ctx) {
			var cur string
			c.Beat(func() string { return cur })
			var walk func(t string, d int) bool
			walk = func(t string, d int) bool {
				cur = t
				c.Res.States++
				var ok bool
				var bad string
				if p := mc.Panics(func() { ok, bad = c17Parse(t) }); p != "" {
					ok, bad = true, p
				}
				if ok {
					c.Res.Transitions++
					if c.Res.Transitions%64 == 0 {
						c.Eval(t)
						c.Beat(nil)
					}
					if bad != "" && !c.Failf("parse", "%q %s", t, bad) {
						return false
					}
				}
				if d == depth {
					return true
				}
				if c.Expired() {
					return false
				}
				for _, x := range tokens {
					if !walk(t+x, d+1) {
						return false
					}
				}
				return true
			}
			walk(first, 1)
		}})
	}
	var all []string
	for _, s := range []string{"", "s:", "t:"} {
		for _, a := range []string{"", "//h", "//u@h:1", "//h:1"} {
			for _, p := range []string{"", "/", "a", "/a", "a/b", "/a/b", "a/", "/a/", "../a", "/../a", "./a", "a/../b", "/a/../b", "a//b", "./b:c", "/b:c", "/..", "a/b/c", "/a/b/c", "/a/c", "..", ".", "a%20b/c", "/a%23/c", "../../a/b", "a/c"} {
				if a != "" && p != "" && p[0] != '/' {
					continue
				}
				if s == "t:" && (len(p) > 4 || a == "//h:1") {
					continue
				}
				for _, q := range []string{"", "?q", "?r"} {
					for _, f := range []string{"", "#f", "#f%23"} {
						if q == "?r" && f == "#f%23" {
							continue
						}
						all = append(all, s+a+p+q+f)
					}
				}
			}
		}
	}
	const parts = 16
	for k := 0; k < parts; k++ {
		items = append(items, mc.Item{Name: fmt.Sprintf("resolve/%d", k), Run: func(c *mc.Ctx) {
			var cur [2]string
			c.Beat(func() string { return cur[0] + " and " + cur[1] })
			for i, b := range all {
				if i%parts != k {
					continue
				}
				if c.Expired() {
					return
				}
				c.Beat(nil)
				c.Eval(b)
				c.Res.States++
				for _, r := range all {
					cur = [2]string{b, r}
					c.Res.Transitions++
					var bad string
					if p := mc.Panics(func() { bad = c17Pair(b, r) }); p != "" {
						bad = p
					}
					if bad != "" && !c.Failf("resolve", "base %q and %q: %s", b, r, bad) {
						return
					}
				}
			}
		}})
	}
	var some []string
	for _, u := range all {
		if p := rfcSplit(u); (p.query == "" || p.query == "q") && p.frag != "f#" && len(p.path) < 4 {
			some = append(some, u)
		}
	}
	for k := 0; k < parts; k++ {
		items = append(items, mc.Item{Name: fmt.Sprintf("prefix/%d", k), Run: func(c *mc.Ctx) {
			var cur [3]string
			c.Beat(func() string { return fmt.Sprint(cur) })
			for i, u := range some {
				if i%parts != k {
					continue
				}
				if c.Expired() {
					return
				}
				c.Beat(nil)
				c.Eval(u)
				c.Res.States++
				for _, o := range some {
					if q := rfcSplit(o); q.query != "" || q.frag != "" {
						continue
					}
					for _, n := range some {
						if q := rfcSplit(n); q.query != "" {
							continue
						}
						cur = [3]string{u, o, n}
						c.Res.Transitions++
						var bad string
						if p := mc.Panics(func() { bad = c17Prefix(u, o, n) }); p != "" {
							bad = p
						}
						if bad != "" && !c.Failf("prefix", "%q, prefix %q by %q: %s", u, o, n, bad) {
							return
						}
					}
				}
			}
		}})
	}
	return items
}
