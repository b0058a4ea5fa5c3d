package main

import (
	"fmt"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

func init() {
	register(&mc.Check{ID: "C02", Level: "model_checking",
		Rule:        "every history of reflective changes on containment features, container features and resource contents, breadth-first, states merged by the reference model's state with several hidden-state variants; after every step every slot, container, containing feature, resource and contents of every object is compared with the reference model",
		Assumptions: []string{"3 or 4 objects, at most 2 resources", "changes that would make an object contain itself are outside the property", "store-backed objects use the harness' in-memory store or none"},
		Items: func(tier string) []mc.Item {
			return append(graphItems("tree", append(stealScenarios(), containmentScenarios()...), false), shiftedItems(tier)...)
		}})
	register(&mc.Check{ID: "C03", Level: "model_checking",
		Rule:        "every history of reflective changes on references with opposites, breadth-first, states merged by the reference model's state with several hidden-state variants; after every step every slot of every object is compared with the reference model, which keeps opposites symmetric by construction",
		Assumptions: []string{"3 objects", "changes that would make an object contain itself are outside the property", "store-backed objects use the harness' in-memory store or none"},
		Items: func(tier string) []mc.Item {
			return append(graphItems("opposite", append(stealScenarios()[:3], oppositeScenarios()...), false), shiftedItems(tier)...)
		}})
	register(&mc.Check{ID: "C04", Level: "model_checking",
		Rule:        "every history of reflective changes with an adapter on every object and resource; after every step the notifications delivered are replayed on the previous state of the reference model and must give its next state; every pair of mergeable notifications is merged and compared with applying both",
		Assumptions: []string{"3 or 4 objects, at most 2 resources", "changes that would make an object contain itself are outside the property"},
		Items:       c04Items})
}

func nClass(feats ...fspec) []cspec { return []cspec{{name: "N", feats: feats}} }

var (
	fKids    = fspec{name: "kids", typ: "N", ref: true, many: true, cont: true, opp: "N.parent"}
	fParent  = fspec{name: "parent", typ: "N", ref: true, opp: "N.kids"}
	fChild   = fspec{name: "child", typ: "N", ref: true, cont: true, opp: "N.owner"}
	fOwner   = fspec{name: "owner", typ: "N", ref: true, opp: "N.child"}
	fBox     = fspec{name: "box", typ: "N", ref: true, cont: true}
	fBoxes   = fspec{name: "boxes", typ: "N", ref: true, many: true, cont: true}
	fKidsL   = fspec{name: "kids", typ: "N", ref: true, many: true, cont: true, opp: "N.parent", noResolve: true}
	fParentL = fspec{name: "parent", typ: "N", ref: true, opp: "N.kids", noResolve: true}
	fBoxL    = fspec{name: "box", typ: "N", ref: true, cont: true, noResolve: true}
	fBoxesL  = fspec{name: "boxes", typ: "N", ref: true, many: true, cont: true, noResolve: true}
	fChildL  = fspec{name: "child", typ: "N", ref: true, cont: true, opp: "N.owner", noResolve: true}
	fOwnerL  = fspec{name: "owner", typ: "N", ref: true, opp: "N.child", noResolve: true}
	fBoss    = fspec{name: "boss", typ: "N", ref: true, opp: "N.team"}
	fTeam    = fspec{name: "team", typ: "N", ref: true, many: true, opp: "N.boss"}
	fOne     = fspec{name: "one", typ: "N", ref: true, opp: "N.eno"}
	fEno     = fspec{name: "eno", typ: "N", ref: true, opp: "N.one"}
	fNs      = fspec{name: "ns", typ: "N", ref: true, many: true, opp: "N.ms"}
	fMs      = fspec{name: "ms", typ: "N", ref: true, many: true, opp: "N.ns"}
	fSpouse  = fspec{name: "spouse", typ: "N", ref: true, opp: "N.spouse"}
	fRef     = fspec{name: "ref", typ: "N", ref: true}
	fRefs    = fspec{name: "refs", typ: "N", ref: true, many: true}
	fTeamL   = fspec{name: "team", typ: "N", ref: true, many: true, opp: "N.boss", noResolve: true}
	fBossL   = fspec{name: "boss", typ: "N", ref: true, opp: "N.team", noResolve: true}
)

// features whose identifiers differ between classes
func shiftedClasses(sups ...string) []cspec {
	return []cspec{
		{name: "A", feats: []fspec{{name: "x1", typ: "string"}, {name: "x2", typ: "string"}}},
		{name: "N", feats: []fspec{fKids, fParent, fBox, fBoxes, fNs, fMs}},
		{name: "M", supers: sups},
	}
}

func threeN() []string { return []string{"N", "N", "N"} }

func containmentScenarios() []gscenario {
	return []gscenario{
		{name: "kids-parent", classes: nClass(fKids, fParent), objs: threeN(), feats: []string{"N.kids", "N.parent"}, depth: 4, deep: 6, pairs: true},
		{name: "child-owner", classes: nClass(fChild, fOwner), objs: threeN(), feats: []string{"N.child", "N.owner"}, depth: 4, deep: 7},
		{name: "box", classes: nClass(fBox), objs: threeN(), feats: []string{"N.box"}, depth: 4, deep: 6},
		{name: "boxes", classes: nClass(fBoxes), objs: threeN(), feats: []string{"N.boxes"}, depth: 4, deep: 6, pairs: true},
		{name: "two-owners", classes: nClass(fChild, fOwner, fKids, fParent), objs: threeN(), feats: []string{"N.child", "N.owner", "N.kids", "N.parent"}, depth: 3, deep: 5},
		{name: "mixed", classes: nClass(fRef, fKids, fParent, fBox, fBoxes), objs: threeN(), feats: []string{"N.kids", "N.parent", "N.box", "N.boxes"}, depth: 3, deep: 4},
		{name: "resource", classes: nClass(fKids, fParent, fBox), objs: threeN(), nres: 1, feats: []string{"N.kids", "N.parent", "N.box"}, depth: 3, deep: 4, pairs: true},
		{name: "resource-noresolve", classes: nClass(fKidsL, fParentL, fBoxL), objs: threeN(), nres: 1, feats: []string{"N.kids", "N.parent", "N.box"}, depth: 3, deep: 4, pairs: true},
		{name: "resources", classes: nClass(fBoxes, fBox), objs: threeN(), nres: 2, feats: []string{"N.boxes", "N.box"}, depth: 3, deep: 4},
		{name: "resources-noresolve", classes: nClass(fBoxesL, fChildL, fOwnerL), objs: threeN(), nres: 2, feats: []string{"N.boxes", "N.child", "N.owner"}, depth: 3, deep: 4},
		{name: "four", classes: nClass(fKids, fParent), objs: []string{"N", "N", "N", "N"}, feats: []string{"N.kids", "N.parent"}, depth: 3, deep: 4, pairs: true},
		{name: "inherited", classes: shiftedClasses("N", "A"), objs: []string{"N", "M", "M"}, feats: []string{"N.kids", "N.parent", "N.box", "N.boxes"}, depth: 3, deep: 4},
		{name: "kids-parent-kinds", classes: nClass(fKids, fParent, fBox), objs: threeN(), feats: []string{"N.kids", "N.parent", "N.box"}, depth: 3, deep: 4, kinds: []string{kDynamic, kCompactC, kStoreMem}},
		{name: "kids-parent-kinds2", classes: nClass(fKids, fParent, fBox), objs: threeN(), feats: []string{"N.kids", "N.parent", "N.box"}, depth: 3, deep: 4, kinds: []string{kReflect, kStoreC, kCompact}},
	}
}

func oppositeScenarios() []gscenario {
	return []gscenario{
		{name: "boss-team", classes: nClass(fBoss, fTeam), objs: threeN(), feats: []string{"N.boss", "N.team"}, depth: 3, deep: 5, pairs: true},
		{name: "boss-team-noresolve", classes: nClass(fTeamL, fBossL), objs: threeN(), feats: []string{"N.boss", "N.team"}, depth: 3, deep: 4, pairs: true},
		{name: "one-eno", classes: nClass(fOne, fEno), objs: threeN(), feats: []string{"N.one", "N.eno"}, depth: 4, deep: 6},
		{name: "ns-ms", classes: nClass(fNs, fMs), objs: threeN(), feats: []string{"N.ns", "N.ms"}, depth: 2, deep: 3, pairs: true},
		{name: "ns-ms-two", classes: nClass(fNs, fMs), objs: []string{"N", "N"}, feats: []string{"N.ns", "N.ms"}, depth: 4, deep: 6},
		{name: "spouse", classes: nClass(fSpouse), objs: []string{"N", "N", "N", "N"}, feats: []string{"N.spouse"}, depth: 4, deep: 6},
		{name: "kids-parent", classes: nClass(fKids, fParent), objs: threeN(), feats: []string{"N.kids", "N.parent"}, depth: 3, deep: 5, pairs: true},
		{name: "owner-child", classes: nClass(fOwner, fChild), objs: threeN(), feats: []string{"N.child", "N.owner"}, depth: 4, deep: 6},
		{name: "boss-one", classes: nClass(fBoss, fTeam, fOne, fEno, fRefs), objs: []string{"N", "N", "N"}, feats: []string{"N.boss", "N.team", "N.one", "N.eno"}, depth: 2, deep: 3},
		{name: "tree-and-links", classes: nClass(fKids, fParent, fNs, fMs), objs: threeN(), feats: []string{"N.kids", "N.parent", "N.ns", "N.ms"}, depth: 2, deep: 3},
		{name: "inherited-links", classes: shiftedClasses("N", "A"), objs: []string{"N", "M", "M"}, feats: []string{"N.ns", "N.ms", "N.kids", "N.parent"}, depth: 2, deep: 3},
		{name: "boss-team-kinds", classes: nClass(fBoss, fTeam, fOne, fEno), objs: threeN(), feats: []string{"N.boss", "N.team", "N.one", "N.eno"}, depth: 3, deep: 4, kinds: []string{kDynamic, kCompactC, kStoreMem}},
		{name: "boss-team-kinds2", classes: nClass(fBoss, fTeam, fOne, fEno), objs: threeN(), feats: []string{"N.boss", "N.team", "N.one", "N.eno"}, depth: 3, deep: 4, kinds: []string{kReflect, kStoreC, kCompact}},
	}
}

func graphItems(prefix string, scs []gscenario, record bool) []mc.Item {
	var items []mc.Item
	for _, sc := range scs {
		sc := sc
		if sc.kinds != nil {
			items = append(items, sc.item(prefix, sc.kinds, record))
			continue
		}
		for _, k := range allKinds {
			items = append(items, sc.item(prefix, []string{k}, record))
		}
	}
	return items
}

func c04Items(tier string) []mc.Item {
	var items []mc.Item
	seen := map[string]bool{}
	items = append(items, mergeItems(tier)...)
	for _, sc := range append(append(stealScenarios(), containmentScenarios()...), oppositeScenarios()...) {
		sc := sc
		if seen[sc.name] {
			continue
		}
		seen[sc.name] = true
		if sc.depth > 3 {
			sc.depth = 3
		}
		if sc.deep > 4 {
			sc.deep = 4
		}
		ks := allKinds
		if sc.kinds != nil {
			items = append(items, sc.item("notify", sc.kinds, true))
			continue
		}
		for _, k := range ks {
			items = append(items, sc.item("notify", []string{k}, true))
		}
	}
	for _, k := range allKinds {
		sc := gscenario{name: "silent", classes: nClass(fKids, fParent, fOne, fEno), objs: threeN(), feats: []string{"N.kids", "N.parent", "N.one", "N.eno"}, depth: 2, deep: 3, silent: 1}
		items = append(items, sc.item("notify", []string{k}, true))
	}
	return items
}

// classes with several super types: a feature has another identifier in the
// subclass than in the class that declares it
func shiftedItems(tier string) []mc.Item {
	var items []mc.Item
	for _, k := range allKinds {
		k := k
		items = append(items, mc.Item{Name: "multiple-inheritance/" + k, Run: func(c *mc.Ctx) {
			sc := gscenario{name: "shifted", classes: shiftedClasses("A", "N"), objs: []string{"N", "M", "M"}, feats: []string{"N.kids", "N.parent", "N.ns", "N.ms", "N.box", "N.boxes"}}
			s0 := sc.build([]string{k}, false)
			for i, op := range s0.ops {
				s := sc.build([]string{k}, false)
				if !s.Enabled(i) {
					continue
				}
				c.Res.Transitions++
				if v := s.Step(i, true); v != nil {
					// lists and containers know their feature by its identifier in the declaring class
					kind := "list"
					if !op.f.many {
						kind = "single"
					}
					c.Viol(mc.Viol{Key: "multiple-inheritance:" + kind, Msg: k + ": " + v.Msg})
				}
			}
			c.Res.States++
		}})
	}
	return items
}

// mergeItems: every sequence of removals of a list, and every sequence of set
// and unset of a single value, chained and dispatched: the (merged) notifications
// must describe the same change as the separate ones.
func mergeItems(tier string) []mc.Item {
	const n = 6
	objs := make([]string, n)
	for i := range objs {
		objs[i] = "N"
	}
	sc := gscenario{name: "merge", classes: nClass(fRef, fRefs), objs: objs, feats: []string{"N.ref", "N.refs"}}
	return []mc.Item{
		{Name: "merge/removals", Run: func(c *mc.Ctx) {
			var rec func(seq []int, left []int, size int)
			rec = func(seq, left []int, size int) {
				if len(seq) > 0 {
					s := sc.build([]string{kDynamic}, true)
					f := s.w.feats[1]
					before := s.model
					for i := 0; i < size; i++ {
						before.slots[0][f.idx] = append(before.slots[0][f.idx], i)
					}
					s.model = before.clone()
					s.model.slots[0][f.idx] = left
					cur := append([]int(nil), before.slots[0][f.idx]...)
					for _, chained := range []bool{false, true} {
						s.events = nil
						cur := append([]int(nil), cur...)
						var chain ecore.ENotificationChain = ecore.NewNotificationChain()
						for k, pos := range seq {
							nt := ecore.NewNotificationByFeature(s.objs[0], ecore.REMOVE, f.f, s.objs[cur[pos]], nil, pos)
							cur = append(cur[:pos:pos], cur[pos+1:]...)
							if !chained {
								chain.Add(nt)
							} else if k == 0 {
								chain = nt
							} else {
								chain.Add(nt)
							}
						}
						if p := mc.Panics(chain.Dispatch); p != "" {
							c.Failf("merge:removals:panic", "removals at %v of %d elements: %s", seq, size, p)
							return
						}
						d := s.replayEvents(before)
						if d == "" && len(s.events) == 0 {
							d = "no notification"
						}
						c.Res.Transitions++
						if d != "" {
							c.Failf("merge:removals", "removals at positions %v of %d elements chained: %s", seq, size, d)
							return
						}
					}
					c.Eval(fmt.Sprint(size, seq))
				}
				for pos := range left {
					l := append(append([]int(nil), left[:pos]...), left[pos+1:]...)
					rec(append(append([]int(nil), seq...), pos), l, size)
				}
			}
			for size := 1; size <= n-1; size++ {
				var l []int
				for i := 0; i < size; i++ {
					l = append(l, i)
				}
				rec(nil, l, size)
			}
			c.Res.States = c.Res.Evals
		}},
		{Name: "merge/sets", Run: func(c *mc.Ctx) {
			// values 0..2 or -1 (unset); two objects interleaved
			type st struct{ o, v int }
			var rec func(seq []st)
			rec = func(seq []st) {
				if len(seq) > 0 {
					s := sc.build([]string{kDynamic}, true)
					f := s.w.feats[0]
					before := s.model
					s.model = before.clone()
					var chain ecore.ENotificationChain
					for _, x := range seq {
						var old, nw any
						if l := s.model.slots[x.o][f.idx]; len(l) > 0 {
							old = s.objs[l[0]]
						}
						typ := ecore.UNSET
						s.model.slots[x.o][f.idx] = nil
						if x.v >= 0 {
							typ, nw = ecore.SET, s.objs[x.v]
							s.model.slots[x.o][f.idx] = []int{x.v}
						}
						nt := ecore.NewNotificationByFeature(s.objs[x.o], typ, f.f, old, nw, ecore.NO_INDEX)
						if chain == nil {
							chain = nt
						} else {
							chain.Add(nt)
						}
					}
					if p := mc.Panics(chain.Dispatch); p != "" {
						c.Failf("merge:sets:panic", "%v: %s", seq, p)
						return
					}
					c.Res.Transitions++
					if d := s.replayEvents(before); d != "" {
						c.Failf("merge:sets", "sets (object, value) %v chained: %s", seq, d)
						return
					}
					c.Eval(fmt.Sprint(seq))
				}
				if len(seq) == 4 {
					return
				}
				for o := 0; o < 2; o++ {
					for v := -1; v < 3; v++ {
						rec(append(append([]st(nil), seq...), st{o, v}))
					}
				}
			}
			rec(nil)
			c.Res.States = c.Res.Evals
		}},
	}
}

// stealing: collections taken from other lists in every order
func stealScenarios() []gscenario {
	five := []string{"N", "N", "N", "N", "N"}
	var perms [][]int
	for _, x := range []int{2, 3, 4} {
		for _, y := range []int{2, 3, 4} {
			for _, z := range []int{2, 3, 4} {
				if x != y && y != z && x != z {
					perms = append(perms, []int{x, y, z})
				}
			}
			if x != y {
				perms = append(perms, []int{x, y})
			}
		}
	}
	mk := func(w *gworld) []gop {
		var ops []gop
		add := func(o int, f *gfeat, nm string) {
			for _, p := range perms {
				ops = append(ops, gop{nm + ".addall(" + objNames(p) + ")", "addall", o, f, 0, 0, p})
				ops = append(ops, gop{nm + ".insertall(0," + objNames(p) + ")", "insertall", o, f, 0, 0, p})
				ops = append(ops, gop{nm + ".removeall(" + objNames(p) + ")", "removeall", o, f, 0, 0, p})
				if f != nil {
					ops = append(ops, gop{nm + ".setmany(" + objNames(p) + ")", "setmany", o, f, 0, 0, p})
				}
			}
			ops = append(ops, gop{nm + ".clear()", "clear", o, f, 0, 0, nil})
			ops = append(ops, gop{nm + ".removerange(0,3)", "removerange", o, f, 0, 3, nil})
			ops = append(ops, gop{nm + ".removerange(1,3)", "removerange", o, f, 1, 3, nil})
			ops = append(ops, gop{nm + ".move(0,2)", "move", o, f, 0, 2, nil})
		}
		for o := 0; o < 2; o++ {
			for _, f := range w.feats {
				if f.many {
					add(o, f, objName(o)+"."+f.name)
				}
			}
			if w.nres > 0 {
				add(o, nil, fmt.Sprintf("r%d", o))
			}
		}
		return ops
	}
	return []gscenario{
		{name: "steal-kids", classes: nClass(fKids, fParent), objs: five, feats: []string{"N.kids", "N.parent"}, depth: 2, deep: 3, mkops: mk},
		{name: "steal-boxes", classes: nClass(fBoxes), objs: five, feats: []string{"N.boxes"}, depth: 2, deep: 3, mkops: mk},
		{name: "steal-team", classes: nClass(fBoss, fTeam), objs: five, feats: []string{"N.boss", "N.team"}, depth: 2, deep: 3, mkops: mk},
		{name: "steal-resources", classes: nClass(fBoxesL), objs: five, nres: 2, feats: []string{"N.boxes"}, depth: 2, deep: 3, mkops: mk},
	}
}
