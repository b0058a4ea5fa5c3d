package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"verif/mc/mc"
)

// C23: data values and texts, defaults and enumerations.

func init() {
	register(&mc.Check{ID: "C23", Level: "model_checking",
		Rule:        "value/: every value of a domain (all 8 and 16 bit integers, all powers of two and neighbours, every exponent with a set of mantissas, every text and byte string over an alphabet up to a length, instants in several zones) of every data type of the base package and of every instance type of a dynamic package, converted to text and back. text/: every text over an alphabet up to a length, against the grammar of the type. default/: every sequence of changes of a feature's default literal, default value and type up to a length; what the feature, the class and unset objects report is compared with a fresh conversion. enum/: every enumeration of up to 3 literals over a set of names, literal texts and values.",
		Assumptions: []string{"the grammars of numbers and truth values are those of the Go language's decimal forms", "enumerations with two values under one literal text are left out of the value to text to value law"},
		Items:       c23Items})
}

// dkind is one kind of value with its domain and its grammar.
type dkind struct {
	name   string
	values func(thorough bool) []any
	// valid tells whether a text is of the type and which value it is.
	valid func(t string) (any, bool)
	texts string // alphabet
	depth int
}

func intDomain(bits int, mk func(int64) any) func(bool) []any {
	return func(thorough bool) []any {
		var r []any
		if bits <= 16 {
			for v := -(int64(1) << (bits - 1)); v < int64(1)<<(bits-1); v++ {
				r = append(r, mk(v))
			}
			return r
		}
		seen := map[int64]bool{}
		add := func(b *big.Int) {
			if b.IsInt64() && !seen[b.Int64()] && b.BitLen() <= bits-1 || b.Cmp(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))) == 0 && !seen[b.Int64()] {
				seen[b.Int64()] = true
				r = append(r, mk(b.Int64()))
			}
		}
		for e := 0; e <= bits; e++ {
			for d := int64(-3); d <= 3; d++ {
				for _, s := range []int64{1, -1} {
					b := new(big.Int).Lsh(big.NewInt(1), uint(e))
					b.Add(b, big.NewInt(d)).Mul(b, big.NewInt(s))
					add(b)
				}
			}
		}
		for p, e := big.NewInt(1), 0; e < 20; e++ {
			for d := int64(-2); d <= 2; d++ {
				add(new(big.Int).Add(p, big.NewInt(d)))
				add(new(big.Int).Neg(new(big.Int).Add(p, big.NewInt(d))))
			}
			p = new(big.Int).Mul(p, big.NewInt(10))
		}
		return r
	}
}

var intRE = regexp.MustCompile(`^[+-]?[0-9]+$`)
var uintRE = regexp.MustCompile(`^[0-9]+$`)
var floatRE = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func intValid(bits int, mk func(int64) any) func(string) (any, bool) {
	return func(t string) (any, bool) {
		if !intRE.MatchString(t) {
			return nil, false
		}
		b, _ := new(big.Int).SetString(strings.TrimPrefix(t, "+"), 10)
		if !b.IsInt64() || b.Int64() < -1<<(bits-1) || b.Int64() > 1<<(bits-1)-1 {
			return nil, false
		}
		return mk(b.Int64()), true
	}
}

func floatDomain(bits int) func(bool) []any {
	return func(thorough bool) []any {
		var r []any
		if bits == 64 {
			step := 3
			if thorough {
				step = 1
			}
			for e := 0; e < 2047; e += step {
				for _, m := range []uint64{0, 1, 1<<51 + 1, 1<<52 - 1, 0x5555555555555} {
					for s := uint64(0); s < 2; s++ {
						r = append(r, math.Float64frombits(s<<63|uint64(e)<<52|m))
					}
				}
			}
			return append(r, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 1.0/3)
		}
		for e := uint32(0); e < 255; e++ {
			for _, m := range []uint32{0, 1, 1<<22 + 1, 1<<23 - 1, 0x2aaaaa} {
				for s := uint32(0); s < 2; s++ {
					r = append(r, math.Float32frombits(s<<31|e<<23|m))
				}
			}
		}
		return append(r, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), float32(0.1))
	}
}

func floatValid(bits int) func(string) (any, bool) {
	return func(t string) (any, bool) {
		switch strings.ToLower(strings.TrimLeft(t, "+-")) {
		case "inf", "infinity", "nan":
			return nil, true // one of the special values, whichever
		}
		if t == "1_000" {
			return nil, true // a form of the Go language
		}
		if !floatRE.MatchString(t) {
			return nil, false
		}
		f, _, err := big.ParseFloat(t, 10, 2000, big.ToNearestEven)
		if err != nil {
			return nil, false
		}
		if bits == 64 {
			v, _ := f.Float64()
			return v, !math.IsInf(v, 0)
		}
		v, _ := f.Float32()
		return v, !math.IsInf(float64(v), 0)
	}
}

func words(alphabet []string, depth int) []string {
	r := []string{""}
	for from, d := 0, 0; d < depth; d++ {
		to := len(r)
		for _, w := range r[from:to] {
			for _, a := range alphabet {
				r = append(r, w+a)
			}
		}
		from = to
	}
	return r
}

var dkinds = map[string]dkind{
	"int":   {"int", intDomain(64, func(v int64) any { return int(v) }), intValid(64, func(v int64) any { return int(v) }), "-+0189.eE x", 6},
	"int64": {"int64", intDomain(64, func(v int64) any { return v }), intValid(64, func(v int64) any { return v }), "-+0189.eE x", 6},
	"int32": {"int32", intDomain(32, func(v int64) any { return int32(v) }), intValid(32, func(v int64) any { return int32(v) }), "-+0189.eE x", 6},
	"int16": {"int16", intDomain(16, func(v int64) any { return int16(v) }), intValid(16, func(v int64) any { return int16(v) }), "-+03789.eE x", 6},
	"int8":  {"int8", intDomain(8, func(v int64) any { return int8(v) }), intValid(8, func(v int64) any { return int8(v) }), "-+01289.eE x", 6},
	"uint64": {"uint64", func(bool) []any {
		r := []any{}
		for e := 0; e < 64; e++ {
			for d := uint64(0); d < 3; d++ {
				r = append(r, uint64(1)<<e+d-1)
			}
		}
		return append(r, uint64(math.MaxUint64))
	}, func(t string) (any, bool) {
		if !uintRE.MatchString(t) {
			return nil, false
		}
		b, _ := new(big.Int).SetString(t, 10)
		return b.Uint64(), b.IsUint64()
	}, "-+0189.eE x", 6},
	"float64": {"float64", floatDomain(64), floatValid(64), "-+019.eEn x", 6},
	"float32": {"float32", floatDomain(32), floatValid(32), "-+019.eEn x", 6},
	"bool": {"bool", func(bool) []any { return []any{true, false} }, func(t string) (any, bool) {
		switch t {
		case "1", "t", "T", "TRUE", "true", "True":
			return true, true
		case "0", "f", "F", "FALSE", "false", "False":
			return false, true
		}
		return nil, false
	}, "trueTRUEfals01 ", 4},
	"string": {"string", func(th bool) []any {
		var r []any
		d := 3
		if th {
			d = 4
		}
		for _, w := range words([]string{"a", "<", "&", "\"", "'", "\n", "\t", " ", "\x00", "é", "😀", "\\", "]]>", "\xff", "%"}, d) {
			r = append(r, w)
		}
		return r
	}, func(t string) (any, bool) { return t, true }, "a<&\"\n ", 4},
	"bytes": {"bytes", func(th bool) []any {
		r := []any{[]byte{}}
		for i := 0; i < 256; i++ {
			r = append(r, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				r = append(r, []byte{byte(i), byte(j)})
			}
		}
		return r
	}, func(t string) (any, bool) { return []byte(t), true }, "a<&\"\n ", 4},
	"byte": {"byte", func(bool) []any {
		var r []any
		for i := 0; i < 256; i++ {
			r = append(r, byte(i))
		}
		return r
	}, func(t string) (any, bool) {
		if len(t) == 1 && t[0] < 0x80 {
			return t[0], true
		}
		return nil, false
	}, "a<&\"\n ", 1},
	"date": {"date", func(bool) []any {
		var r []any
		for _, z := range []*time.Location{time.UTC, time.FixedZone("e", 7200), time.FixedZone("w", -5*3600-1800)} {
			for _, y := range []int{1, 1582, 1969, 1970, 2000, 2024, 9998} {
				for _, md := range [][2]int{{1, 1}, {2, 29}, {12, 31}, {6, 30}} {
					for _, s := range []int{0, 1, 43200, 86399} {
						for _, ns := range []int{0, 1, 999, 1000, 500000, 1000000, 10000000, 120000000, 999000000, 999999999} {
							t := time.Date(y, time.Month(md[0]), md[1], 0, 0, s, ns, z)
							r = append(r, &t)
						}
					}
				}
			}
		}
		return r
	}, func(t string) (any, bool) {
		u, err := time.Parse("2006-01-02T15:04:05Z07:00", t)
		return &u, err == nil && strings.HasSuffix(t, "Z")
	}, "", 0},
}

// sameData compares two data values with their types.
func sameData(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case float64:
		y := b.(float64)
		return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y
	case float32:
		y := b.(float32)
		return math.Float32bits(x) == math.Float32bits(y) || x != x && y != y
	case []byte:
		return bytes.Equal(x, b.([]byte))
	case *time.Time:
		y := b.(*time.Time)
		return x == y || x != nil && y != nil && x.Equal(*y)
	}
	return a == b
}

// dataTypes gives the data types under test with their kinds.
func dataTypes() (names []string, types map[string]ecore.EDataType, kinds map[string]string) {
	types, kinds = map[string]ecore.EDataType{}, map[string]string{}
	add := func(name string, t ecore.EDataType, kind string) {
		names = append(names, name)
		types[name], kinds[name] = t, kind
	}
	p := ecore.GetPackage()
	add("EBigDecimal", p.GetEBigDecimal(), "float64")
	add("EBigInteger", p.GetEBigInteger(), "int64")
	add("EBoolean", p.GetEBoolean(), "bool")
	add("EBooleanObject", p.GetEBooleanObject(), "bool")
	add("EByte", p.GetEByte(), "byte")
	add("EByteObject", p.GetEByteObject(), "byte")
	add("EByteArray", p.GetEByteArray(), "bytes")
	add("EChar", p.GetEChar(), "byte")
	add("ECharacterObject", p.GetECharacterObject(), "byte")
	add("EDate", p.GetEDate(), "date")
	add("EDouble", p.GetEDouble(), "float64")
	add("EDoubleObject", p.GetEDoubleObject(), "float64")
	add("EFloat", p.GetEFloat(), "float32")
	add("EFloatObject", p.GetEFloatObject(), "float32")
	add("EInt", p.GetEInt(), "int")
	add("EIntegerObject", p.GetEIntegerObject(), "int")
	add("ELong", p.GetELong(), "int64")
	add("ELongObject", p.GetELongObject(), "int")
	add("EShort", p.GetEShort(), "int16")
	add("EShortObject", p.GetEShortObject(), "int16")
	add("EString", p.GetEString(), "string")
	f := ecore.GetFactory()
	pkg := f.CreateEPackage()
	pkg.SetName("d")
	pkg.SetNsURI("http://d")
	pkg.SetEFactoryInstance(newPkgFactory(pkg))
	for _, k := range [][2]string{{"float64", "float64"}, {"java.lang.Double", "float64"}, {"double", "float64"}, {"float32", "float32"}, {"java.lang.Float", "float32"}, {"float", "float32"},
		{"int", "int"}, {"java.lang.Integer", "int"}, {"uint64", "uint64"}, {"com.google.common.primitives.UnsignedLong", "uint64"}, {"int64", "int64"}, {"java.lang.Long", "int64"}, {"java.math.BigInteger", "int64"}, {"long", "int64"},
		{"int32", "int32"}, {"int16", "int16"}, {"java.lang.Short", "int16"}, {"short", "int16"}, {"int8", "int8"}, {"bool", "bool"}, {"java.lang.Boolean", "bool"}, {"boolean", "bool"}, {"string", "string"}, {"java.lang.String", "string"}, {"byte[]", "bytes"}, {"[]byte", "bytes"}} {
		d := f.CreateEDataType()
		d.SetName("D" + k[0])
		d.SetInstanceTypeName(k[0])
		pkg.GetEClassifiers().Add(d)
		add("dyn-"+k[0], d, k[1])
		if k[0] == k[1] || k[0] == "byte[]" {
			d = f.CreateEDataType()
			d.SetName("A" + k[0])
			d.SetInstanceTypeName("other")
			an := f.CreateEAnnotation()
			an.SetSource("http://net.masagroup/soft/2019/GenGo")
			an.GetDetails().Put("instanceTypeName", k[0])
			d.GetEAnnotations().Add(an)
			pkg.GetEClassifiers().Add(d)
			add("annotated-"+k[0], d, k[1])
		}
	}
	return
}

func c23Value(d ecore.EDataType, v any) string {
	f := d.GetEPackage().GetEFactoryInstance()
	t := f.ConvertToString(d, v)
	w := f.CreateFromString(d, t)
	if !sameData(v, w) {
		return fmt.Sprintf("%s of type %T becomes the text %q, and that becomes %s of type %T", showVal(v), v, t, showVal(w), w)
	}
	if u := f.ConvertToString(d, w); u != t {
		return fmt.Sprintf("%s of type %T becomes the text %q and, after reading that back, %q", showVal(v), v, t, u)
	}
	return ""
}

func c23Text(d ecore.EDataType, k dkind, t string) (key, bad string) {
	want, ok := k.valid(t)
	var got any
	p := mc.Panics(func() { got = d.GetEPackage().GetEFactoryInstance().CreateFromString(d, t) })
	switch {
	case ok && p != "":
		return "text", fmt.Sprintf("%q is refused: %s", t, p)
	case ok && want != nil && !sameData(want, got):
		return "text", fmt.Sprintf("%q becomes %s of type %T, expected %s", t, showVal(got), got, showVal(want))
	case !ok && p == "":
		if k.name == "byte" && len(t) > 0 && t[0] >= 0x80 {
			return "", ""
		}
		return "not-of-type/" + k.name + ":" + strings.Map(func(r rune) rune {
			if r <= ' ' {
				return '_'
			}
			return r
		}, showVal(got)), fmt.Sprintf("%q is not of the type but becomes %s of type %T", t, showVal(got), got)
	}
	return "", ""
}

func c23Items(tier string) []mc.Item {
	thorough := tier == "thorough"
	names, types, kinds := dataTypes()
	var items []mc.Item
	for _, n := range names {
		items = append(items, mc.Item{Name: "value/" + n, Run: func(c *mc.Ctx) {
			var cur any
			c.Beat(func() string { return n + " " + showVal(cur) })
			for i, v := range dkinds[kinds[n]].values(thorough) {
				cur = v
				c.Res.States++
				c.Res.Transitions += 2
				if i%256 == 0 {
					c.Eval(fmt.Sprint(n, i))
					c.Beat(nil)
					if c.Expired() {
						return
					}
				}
				var bad string
				if p := mc.Panics(func() { bad = c23Value(types[n], v) }); p != "" {
					bad = showVal(v) + ": " + p
				}
				if bad != "" && !c.Failf("value", "%s: %s", n, bad) {
					return
				}
			}
		}})
		items = append(items, mc.Item{Name: "text/" + n, Run: func(c *mc.Ctx) {
			k := dkinds[kinds[n]]
			var alpha []string
			for _, r := range k.texts {
				if !strings.Contains(strings.Join(alpha, ""), string(r)) {
					alpha = append(alpha, string(r))
				}
			}
			depth := k.depth
			if !thorough && depth > 5 {
				depth = 5
			}
			ts := words(alpha, depth)
			ts = append(ts, "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "2147483647", "2147483648", "-2147483648", "-2147483649", "32767", "32768", "-32768", "-32769", "127", "128", "-128", "-129", "1e308", "1e309", "-1e309", "-1e39", "1e38", "1e39", "0x10", "1_000", "Infinity", "-inf", "NaN", "true", "false", "TRUE", "True", "tRue")
			if k.name == "date" {
				ts = nil
				for _, y := range []string{"2020", "20", ""} {
					for _, m := range []string{"-02", "-13", ""} {
						for _, d := range []string{"-29", "-30", ""} {
							for _, h := range []string{"T23:59:59", "T24:00:00", "T23:59", "", " 23:59:59"} {
								for _, f := range []string{"", ".1", ".123456789", "."} {
									for _, z := range []string{"Z", "", "+02:00"} {
										ts = append(ts, y+m+d+h+f+z)
									}
								}
							}
						}
					}
				}
			}
			if k.name == "byte" {
				ts = words([]string{"a", "\x00", "é", "\n"}, 3)
			}
			var cur string
			c.Beat(func() string { return fmt.Sprintf("%s %q", n, cur) })
			for i, t := range ts {
				cur = t
				c.Res.States++
				c.Res.Transitions++
				if i%256 == 0 {
					c.Eval(fmt.Sprint(n, i))
					c.Beat(nil)
					if c.Expired() {
						return
					}
				}
				if key, bad := c23Text(types[n], k, t); bad != "" && !c.Failf(key, "%s: %s", n, bad) {
					return
				}
			}
		}})
	}
	for _, n := range []string{"EInt", "EString", "EDate", "dyn-int", "dyn-string", "enum"} {
		items = append(items, mc.Item{Name: "default/" + n, Run: func(c *mc.Ctx) { c23Default(c, n, thorough) }})
	}
	for i := range 6 {
		items = append(items, mc.Item{Name: fmt.Sprintf("enum/%d", i), Run: func(c *mc.Ctx) { c23Enum(c, i, thorough) }})
	}
	return items
}

type literal struct {
	name, text string
	value      int
}

func mkEnum(ls []literal) ecore.EEnum {
	f := ecore.GetFactory()
	e := f.CreateEEnum()
	e.SetName("E")
	for _, l := range ls {
		x := f.CreateEEnumLiteral()
		x.SetName(l.name)
		x.SetLiteral(l.text)
		x.SetValue(l.value)
		e.GetELiterals().Add(x)
	}
	return e
}

// c23Default runs all sequences of changes to the defaults of one attribute.
func c23Default(c *mc.Ctx, first string, thorough bool) {
	depth := 3
	if thorough {
		depth = 4
	}
	_, types, kinds := dataTypes()
	type typ struct {
		name  string
		lits  []string
		value []any
	}
	day := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	pool := []typ{
		{"EInt", []string{"1", "-2"}, []any{3, 0}},
		{"EString", []string{"1", "x"}, []any{"v", ""}},
		{"EDate", []string{"2020-01-02T03:04:05Z"}, []any{&day}},
		{"dyn-int", []string{"1", "5"}, []any{4}},
		{"dyn-string", []string{"1", "y"}, []any{"w"}},
		{"enum", []string{"a", "lit"}, []any{7, 0}},
	}
	for i, t := range pool {
		if t.name == first {
			pool[0], pool[i] = pool[i], pool[0]
		}
	}
	n := enumerate(func(ch *chooser) bool {
		if c.Expired() {
			return false
		}
		f := ecore.GetFactory()
		pkg := f.CreateEPackage()
		pkg.SetName("p")
		pkg.SetNsURI("http://p")
		pkg.SetEFactoryInstance(newPkgFactory(pkg))
		en := mkEnum([]literal{{"a", "", 7}, {"b", "lit", 0}})
		pkg.GetEClassifiers().Add(en)
		types["enum"] = en
		kinds["enum"] = "enum"
		cl := f.CreateEClass()
		cl.SetName("C")
		pkg.GetEClassifiers().Add(cl)
		a := f.CreateEAttribute()
		a.SetName("a")
		a.SetEType(types[pool[0].name])
		cl.GetEStructuralFeatures().Add(a)
		cur := pool[0]
		lit := ""
		many := false
		hist := []string{"type " + cur.name}
		c.Beat(func() string { return strings.Join(hist, "; ") })
		check := func() string {
			d := types[cur.name]
			var want any
			switch {
			case lit == "" && many:
			case lit == "":
				want = d.GetDefaultValue()
				switch cur.name {
				case "EInt", "dyn-int":
					if want != 0 {
						return fmt.Sprintf("the default of %s is %v", cur.name, want)
					}
				case "EString", "dyn-string":
					if want != "" {
						return fmt.Sprintf("the default of %s is %v", cur.name, want)
					}
				case "enum":
					if want != 7 {
						return fmt.Sprintf("the default of the enumeration is %v", want)
					}
				}
			default:
				want = d.GetEPackage().GetEFactoryInstance().CreateFromString(d, lit)
			}
			if a.GetDefaultValueLiteral() != lit {
				return fmt.Sprintf("the default literal is %q, expected %q", a.GetDefaultValueLiteral(), lit)
			}
			if got := a.GetDefaultValue(); !sameData(got, want) {
				return fmt.Sprintf("the default value is %s, expected %s", showVal(got), showVal(want))
			}
			if many {
				return ""
			}
			o := pkg.GetEFactoryInstance().Create(cl)
			if got := o.EGet(a); !sameData(got, want) {
				return fmt.Sprintf("an unset attribute is %s, expected %s", showVal(got), showVal(want))
			}
			if o.EIsSet(a) {
				return "an untouched attribute is set"
			}
			if len(cur.value) > 0 {
				v := cur.value[0]
				o.ESet(a, v)
				if got := o.EGet(a); !sameData(got, v) {
					return fmt.Sprintf("after setting %s the attribute is %s", showVal(v), showVal(got))
				}
				o.EUnset(a)
				if got := o.EGet(a); !sameData(got, want) || o.EIsSet(a) {
					return fmt.Sprintf("after unsetting the attribute is %s, expected %s", showVal(got), showVal(want))
				}
			}
			return ""
		}
		for s := 0; ; s++ {
			c.Res.States++
			var bad string
			if p := mc.Panics(func() { bad = check() }); p != "" {
				bad = p
			}
			if bad != "" && !c.Failf("default", "after %s: %s", strings.Join(hist, "; "), bad) {
				return false
			}
			if s == depth {
				return true
			}
			c.Res.Transitions++
			switch k := ch.pick(5); k {
			case 0: // another type, without default
				t := pool[ch.pick(len(pool))]
				if lit != "" {
					hist = append(hist, "literal none")
					a.SetDefaultValueLiteral("")
					lit = ""
				}
				hist = append(hist, "type "+t.name)
				a.SetEType(types[t.name])
				cur = t
			case 1: // another type with the same literal
				t := pool[ch.pick(len(pool))]
				ok := lit == ""
				for _, l := range t.lits {
					ok = ok || l == lit
				}
				if !ok {
					return true
				}
				hist = append(hist, "type "+t.name)
				a.SetEType(types[t.name])
				cur = t
			case 2:
				l := append([]string{""}, cur.lits...)[ch.pick(len(cur.lits)+1)]
				hist = append(hist, fmt.Sprintf("literal %q", l))
				a.SetDefaultValueLiteral(l)
				lit = l
			case 3:
				v := cur.value[ch.pick(len(cur.value))]
				hist = append(hist, "value "+showVal(v))
				a.SetDefaultValue(v)
				d := types[cur.name]
				lit = d.GetEPackage().GetEFactoryInstance().ConvertToString(d, v)
			case 4:
				many = !many
				hist = append(hist, fmt.Sprint("many ", many))
				if many {
					a.SetUpperBound(-1)
				} else {
					a.SetUpperBound(1)
				}
			}
			c.Eval(strings.Join(hist, ";"))
		}
	})
	c.Res.Traces += n
}

// c23Enum runs all enumerations up to 3 literals.
func c23Enum(c *mc.Ctx, part int, thorough bool) {
	var all []literal
	for _, n := range []string{"a", "b", "c d"} {
		for _, t := range []string{"", "a", "b", "<x>"} {
			for _, v := range []int{0, 1, -1, 7} {
				if !thorough && v == 7 {
					continue
				}
				all = append(all, literal{n, t, v})
			}
		}
	}
	texts := []string{"", "a", "b", "c d", "<x>", "A", "0", "1"}
	values := []int{-2, -1, 0, 1, 7, 8}
	var ls []literal
	c.Beat(func() string { return fmt.Sprintf("%q", ls) })
	textOf := func(l literal) string {
		if l.text == "" {
			return l.name
		}
		return l.text
	}
	check := func() string {
		f := ecore.GetFactory()
		pkg := f.CreateEPackage()
		pkg.SetNsURI("http://p")
		pkg.SetEFactoryInstance(newPkgFactory(pkg))
		e := mkEnum(ls)
		pkg.GetEClassifiers().Add(e)
		first := func(ok func(literal) bool) ecore.EEnumLiteral {
			for i, l := range ls {
				if ok(l) {
					return e.GetELiterals().Get(i).(ecore.EEnumLiteral)
				}
			}
			return nil
		}
		for _, t := range texts {
			if got, want := e.GetEEnumLiteralByName(t), first(func(l literal) bool { return l.name == t }); got != want {
				return fmt.Sprintf("by name %q finds %v, expected %v", t, got, want)
			}
			want := first(func(l literal) bool { return textOf(l) == t })
			if got := e.GetEEnumLiteralByLiteral(t); got != want {
				return fmt.Sprintf("by literal %q finds %v, expected %v", t, got, want)
			}
			var v any
			p := mc.Panics(func() { v = pkg.GetEFactoryInstance().CreateFromString(e, t) })
			if want == nil && p == "" {
				return fmt.Sprintf("%q is not one of the literals but becomes %v", t, v)
			}
			if want != nil && (p != "" || v != want.GetValue()) {
				return fmt.Sprintf("%q becomes %v %s, expected %v", t, v, p, want.GetValue())
			}
		}
		for _, v := range values {
			want := first(func(l literal) bool { return l.value == v })
			if got := e.GetEEnumLiteralByValue(v); got != want {
				return fmt.Sprintf("by value %d finds %v, expected %v", v, got, want)
			}
			var t string
			p := mc.Panics(func() { t = pkg.GetEFactoryInstance().ConvertToString(e, v) })
			if want == nil && p == "" {
				return fmt.Sprintf("%d is not one of the values but becomes %q", v, t)
			}
			if want != nil {
				if p != "" || t != want.GetLiteral() {
					return fmt.Sprintf("%d becomes %q %s, expected %q", v, t, p, want.GetLiteral())
				}
				// the text leads back unless it is ambiguous
				if back := first(func(l literal) bool { return textOf(l) == t }); back.GetValue() == v {
					if got := pkg.GetEFactoryInstance().CreateFromString(e, t); got != v {
						return fmt.Sprintf("%d becomes %q, and that becomes %v", v, t, got)
					}
				}
			}
		}
		var want any
		if len(ls) > 0 {
			want = ls[0].value
		}
		if got := e.GetDefaultValue(); got != want {
			return fmt.Sprintf("the default value is %v, expected %v", got, want)
		}
		return ""
	}
	var walk func(d int) bool
	walk = func(d int) bool {
		c.Res.States++
		c.Eval(fmt.Sprint(ls))
		var bad string
		if p := mc.Panics(func() { bad = check() }); p != "" {
			bad = p
		}
		if bad != "" && !c.Failf("enum", "literals %q: %s", ls, bad) {
			return false
		}
		if c.Expired() {
			return false
		}
		max := 2
		if thorough {
			max = 3
		}
		if d == max {
			return true
		}
		c.Beat(nil)
		for i, l := range all {
			if d == 0 && i%6 != part {
				continue
			}
			c.Res.Transitions++
			ls = append(ls, l)
			if !walk(d + 1) {
				return false
			}
			ls = ls[:len(ls)-1]
		}
		return true
	}
	walk(0)
}
