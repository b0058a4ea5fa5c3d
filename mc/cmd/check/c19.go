package main

import (
	"strings"

	"verif/mc/mc"
)

// C19: SQL databases and what loads from them.

func init() {
	register(&mc.Check{ID: "C19", Level: "model_checking",
		Rule:        "one/: every model of every family (trees, cross references of every kind, attributes of every type, maps, proxies, texts over an alphabet of special characters, several roots, enumerations, user data types, unsettable features, identifiers) up to a size, built for real, saved into an SQL database and loaded into a fresh resource set; what was loaded is compared with the plain data of the model (order, values, set and unset features, references, identifiers). cross/: the same with the roots in several databases, loaded on demand. names/: classes and features named by words of SQL. Each with databases in memory and in files, identifiers, container identifiers and default values kept.",
		Assumptions: []string{"transient features are not saved", "contained objects are in the same resource as their container", "references that do not resolve proxies stay inside the resource", "the objectID column holds row numbers, not identifiers given by the manager"},
		Items: func(tier string) []mc.Item {
			return append(docItems(tier, []string{"sqlite"}), mc.Item{Name: "names", Run: sqlNames})
		}})
}

var sqlWords = strings.Fields("abort add all alter and as asc begin between by case check collate column commit constraint create cross default delete desc distinct drop each else end except exists fail filter for foreign from full glob group having if ignore in index inner insert into is isnull join key last left like limit match no not null of on or order outer over plan pragma primary query recursive references regexp rename replace row rows select set table temp then to trigger union unique update using values view when where with Order SELECT Value rowid oid _rowid_ main sqlite_x idx uri objectID classID")

// sqlNames: one model for every choice of a class name and a feature name.
func sqlNames(c *mc.Ctx) {
	form := docForms([]string{"sqlite"})[0]
	words := append([]string{"plain"}, sqlWords...)
	for i, w := range words {
		for k := range 7 {
			if c.Expired() {
				return
			}
			class := "Plain"
			if k == 0 {
				class = w
				if strings.HasPrefix(strings.ToLower(w), "sqlite_") {
					continue // not allowed by SQLite
				}
			}
			n := []string{"x0", "x1", "x2", "x3", "x4", "x5"}
			if k > 0 {
				n[k-1] = w
			}
			m := newMM("http://model", []cspec{{name: class, feats: []fspec{
				{name: n[0], typ: "string"},
				{name: n[1], typ: "string", many: true},
				{name: n[2], typ: class, ref: true},
				{name: n[3], typ: class, ref: true, many: true},
				{name: n[4], typ: class, ref: true, cont: true},
				{name: n[5], typ: class, ref: true, cont: true, many: true}}}})
			s := newSpec(m)
			r := s.root(class)
			a := s.child(r, n[4], class)
			b := s.child(r, n[5], class)
			s.set(r, n[0], "v")
			s.set(r, n[1], []any{"v", "w"})
			s.link(r, n[2], b)
			s.link(a, n[2], r)
			s.link(a, n[3], b)
			s.link(a, n[3], r)
			var bad string
			if p := mc.Panics(func() { bad = docTrip(s, form, map[int]int{r: 0}) }); p != "" {
				bad = p
			}
			c.Res.States++
			c.Res.Traces++
			c.Res.Transitions += 10
			c.Eval(w + "/" + n[0] + class)
			if bad != "" && !c.Failf("names/"+w, "class %s, features %v: %s", class, n, bad) {
				return
			}
		}
		_ = i
	}
}
