package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
	"time"

	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// Values of an application.
type c08Inner struct {
	X int64
	Y string
}

type c08S struct {
	A    int64
	B    string
	P    *c08Inner
	N    *c08Inner
	L    []c08Inner
	D    *Dict
	I    any
	Tag  int64 `json:"tagged,omitempty"`
	Own  int64 `json:"Other"`
	Othe int64
	c08Emb
	hidden int64
}

type c08Emb struct{ E int64 }

func (s c08S) Get() int64            { return s.A + 100 }
func (s c08S) Pair() (string, error) { return "pair", nil }
func (s *c08S) PGet() int64          { return s.A + 200 }
func (s c08S) Ptr() *c08Inner        { return s.P }
func (s c08S) NilPtr() *c08Inner     { return nil }
func (s c08S) With(x int) int        { return x }
func (s c08S) Boom() int             { panic("boom") }
func (s c08S) Nothing()              {}
func (s c08S) Many() (int, int, int) { return 1, 2, 3 }
func (s c08S) NilAny() any           { return nil }
func (s c08S) lower() int64          { return 1 }

// clash: the json name of one field is the name of another.
type c08Clash struct {
	A int64 `json:"B"`
	B int64
	C int64
}

// mobj is the model of a struct.
type mobj struct {
	label  string
	m      map[string]any
	listed []string
}

func c08Show(v any) string {
	switch t := v.(type) {
	case *mobj:
		return t.label
	case *md:
		var p []string
		for _, k := range t.keys {
			p = append(p, k+":"+c08Show(t.m[k]))
		}
		return "{" + strings.Join(p, ",") + "}"
	case []any:
		var p []string
		for _, x := range t {
			p = append(p, c08Show(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	return mshow(v)
}

func innerObj(i *c08Inner, ptr bool) any {
	if i == nil {
		return nil
	}
	l := "<main.c08Inner>"
	if ptr {
		l = "<*main.c08Inner>"
	}
	return &mobj{label: l, m: map[string]any{"X": i.X, "Y": i.Y}, listed: []string{"X", "Y"}}
}

func c08Model(v any) any {
	if types.IsNil(v) {
		return nil
	}
	switch t := v.(type) {
	case *c08S:
		if t == nil {
			return nil
		}
		m := c08Model(*t).(*mobj)
		m.label = "<*main.c08S>"
		m.m["PGet"] = t.A + 200
		return m
	case c08S:
		var l any
		if t.L != nil {
			x := []any{}
			for i := range t.L {
				x = append(x, innerObj(&t.L[i], false))
			}
			l = x
		}
		m := map[string]any{
			"A": t.A, "B": t.B, "P": innerObj(t.P, true), "N": innerObj(t.N, true), "L": l, "D": c08Model(t.D), "I": c08Model(t.I),
			"Tag": t.Tag, "tagged": t.Tag, "Own": t.Own, "Other": t.Own, "Othe": t.Othe, "E": t.E,
			"Get": t.A + 100, "Pair": "pair", "Ptr": innerObj(t.P, true), "NilPtr": nil, "Nothing": nil, "Many": nil, "NilAny": nil,
		}
		return &mobj{label: "<main.c08S>", m: m, listed: []string{"A", "B", "P", "N", "L", "D", "I", "Tag", "Own", "Othe", "Get", "Pair"}}
	case c08Inner:
		return innerObj(&t, false)
	case *c08Inner:
		return innerObj(t, true)
	case []*c08Inner:
		var r []any
		for _, x := range t {
			r = append(r, innerObj(x, true))
		}
		return r
	case c08Clash:
		return &mobj{label: "<main.c08Clash>", m: map[string]any{"A": t.A, "B": t.B, "C": t.C}, listed: []string{"A", "B", "C"}}
	case *Dict:
		if t == nil {
			return nil
		}
		r := newMd()
		for _, i := range t.Items() {
			r.set(i.Key, c08Model(i.Value))
		}
		return r
	case []any:
		r := []any{}
		for _, x := range t {
			r = append(r, c08Model(x))
		}
		return r
	case []types.Any:
		r := []any{}
		for _, x := range t {
			r = append(r, c08Model(x))
		}
		return r
	case []*Dict:
		r := []any{}
		for _, x := range t {
			r = append(r, c08Model(x))
		}
		return r
	case []string:
		r := []any{}
		for _, x := range t {
			r = append(r, x)
		}
		return r
	case []int64:
		r := []any{}
		for _, x := range t {
			r = append(r, x)
		}
		return r
	case []byte:
		// Bytes are a list of numbers.
		r := []any{}
		for _, x := range t {
			r = append(r, int64(x))
		}
		return r
	case int:
		return int64(t)
	case types.Null, *types.Null, nil:
		return nil
	}
	if s := show(v); s == "NULL" || s == "nil" {
		return nil
	}
	return v
}

// Access steps and their meaning.
type c08Acc struct {
	text string
	f    func(v any) any
}

func c08Member(v any, name string) (any, bool) {
	switch t := v.(type) {
	case nil:
		return nil, true
	case *md:
		r, ok := t.m[name]
		return r, ok
	case *mobj:
		r, ok := t.m[name]
		return r, ok
	case []any:
		r := []any{}
		for _, x := range t {
			if e, ok := c08Member(x, name); ok {
				r = append(r, e)
			}
		}
		return r, true
	}
	return nil, false
}

func c08Index(v any, i int64) any {
	var n int64
	switch t := v.(type) {
	case []any:
		n = int64(len(t))
	case string:
		n = int64(len(t))
	}
	if i < 0 {
		i += n
	}
	if i < 0 || i >= n {
		return nil
	}
	if s, ok := v.(string); ok {
		return int64(s[i])
	}
	return v.([]any)[i]
}

func c08Slice(v any, a, b *int64) any {
	var n int64
	switch t := v.(type) {
	case []any:
		n = int64(len(t))
	case string:
		n = int64(len(t))
	default:
		return nil
	}
	clip := func(p *int64, def int64) int64 {
		if p == nil {
			return def
		}
		x := *p
		if x < 0 {
			x += n
		}
		if x < 0 {
			x = 0
		}
		if x > n {
			x = n
		}
		return x
	}
	lo, hi := clip(a, 0), clip(b, n)
	if s, ok := v.(string); ok {
		if lo >= hi {
			return ""
		}
		return s[lo:hi]
	}
	if lo >= hi {
		return []any{}
	}
	return v.([]any)[lo:hi]
}

func accMember(n string) c08Acc {
	return c08Acc{"." + quoteName(n), func(v any) any { r, _ := c08Member(v, n); return r }}
}
func accKey(n string) c08Acc {
	return c08Acc{"['" + n + "']", func(v any) any { r, _ := c08Member(v, n); return r }}
}
func accIndex(i int64) c08Acc {
	return c08Acc{fmt.Sprintf("[%d]", i), func(v any) any { return c08Index(v, i) }}
}
func accSlice(a, b *int64) c08Acc {
	s := func(p *int64) string {
		if p == nil {
			return ""
		}
		return fmt.Sprint(*p)
	}
	return c08Acc{"[" + s(a) + ":" + s(b) + "]", func(v any) any { return c08Slice(v, a, b) }}
}

func c08Values() []any {
	in := &c08Inner{X: 7, Y: "why"}
	s := c08S{A: 1, B: "bee", P: in, L: []c08Inner{{1, "a"}, {2, "b"}}, D: D("k", int64(5), "A", "da"), I: []any{int64(1), nil},
		Tag: 11, Own: 12, Othe: 13, c08Emb: c08Emb{E: 14}, hidden: 15}
	var nilS *c08S
	var nilD *Dict
	return []any{
		D("A", int64(1), "B", nil, "D", D("k", int64(2), "A", D("k", "deep")), "L", []any{int64(1), "two", D("k", int64(3))}, "a b", "sp", "X", ""),
		D(),
		&s, s, nilS, nilD, nil, types.Null{},
		&c08S{},
		c08Clash{1, 2, 3},
		[]any{}, []any{int64(10)}, []any{int64(10), "x", nil, D("k", int64(1), "A", int64(2)), []any{D("k", int64(9))}},
		[]*Dict{D("k", int64(1)), D("A", int64(2)), D("k", nil)},
		[]string{"p", "q", "r"}, []int64{5, 6, 7}, []byte("xyz"),
		[]*c08Inner{in, nil, {X: 8}},
		[]any{&s, nilS},
		"", "h", "hello", "h\u00e9llo",
		int64(5), 1.5, true, time.Unix(100, 0),
		D("A", []any{D("A", []any{D("A", int64(1)), D("A", int64(2))})}),
		D("k", nilS, "A", nilD, "B", []any{}),
	}
}

func c08Accs(tier Tier) []c08Acc {
	var r []c08Acc
	for _, n := range []string{"A", "B", "P", "N", "L", "D", "k", "X", "tagged", "Tag", "Other", "Othe", "E", "Get", "Pair", "PGet", "Ptr", "NilPtr", "NilAny",
		"With", "Boom", "Nothing", "Many", "hidden", "lower", "a b", "nope", "I", "C", "Y"} {
		r = append(r, accMember(n))
	}
	for _, n := range []string{"A", "k", "a b", "nope", "0", "tagged"} {
		r = append(r, accKey(n))
	}
	for i := int64(-7); i <= 7; i++ {
		r = append(r, accIndex(i))
	}
	r = append(r, accIndex(math.MaxInt64), accIndex(math.MinInt64+1))
	r = append(r, c08Acc{"[NULL]", func(v any) any { return nil }})
	return r
}

func c08Slices() []c08Acc {
	var r []c08Acc
	var ps []*int64
	ps = append(ps, nil)
	for _, i := range []int64{-8, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, math.MaxInt64, math.MinInt64 + 1} {
		ps = append(ps, &i)
	}
	for _, a := range ps {
		for _, b := range ps {
			if a == nil && b == nil {
				continue
			}
			r = append(r, accSlice(a, b))
		}
	}
	return r
}

// raw turns a query's value into the model's terms, without looking into
// structs.
func c08Got(v any) any { return c08ModelShallow(v) }

func c08ModelShallow(v any) any {
	if b, ok := v.([]byte); ok {
		return c08Model(b)
	}
	if b, ok := v.(uint8); ok {
		return int64(b)
	}
	return c08Model(v)
}

// eval evaluates an expression in a scope without materialising the value.
func (e *Env) eval(text string) any {
	var got any
	stmts := mustParse(e.t, "SELECT raw(v="+text+") AS r FROM scope()")
	e.scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "raw", Function: rawFn(func(v any) { got = v })})
	collect(bg, e.scope, stmts[0])
	return got
}

func c08Check(t *T, vals []any, base string, v any, steps []c08Acc) {
	e := newEnv(t)
	vars := ordereddict.NewDict()
	for i, x := range vals {
		vars.Set(fmt.Sprint("v", i), x)
	}
	e.scope.AppendVars(vars)
	var sb []string
	for i, a := range steps {
		sb = append(sb, fmt.Sprintf("raw%d(v=%s%s) AS r%d", i, base, a.text, i))
	}
	got := make([]any, len(steps))
	for i := range steps {
		e.scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: fmt.Sprint("raw", i), Function: rawFn(func(v any) { got[i] = v })})
	}
	rows := e.query("SELECT " + strings.Join(sb, ", ") + " FROM scope()")
	if len(rows) != 1 {
		t.Fail("rows", "%s: %d rows", base, len(rows))
		return
	}
	settle(t, "access")
	for i, a := range steps {
		want := a.f(v)
		expect(t, "access", fmt.Sprintf("%s%s", base, a.text), c08Show(c08Got(got[i])), c08Show(want))
		t.Sig("%s", c08Show(want))
	}
	for _, l := range e.errorLogs() {
		t.Fail("log", "logged %s", l)
	}
}

func init() {
	register(&Prop{
		ID:    "C08",
		Level: "model_checking",
		Rule:  "each access gives what a reference lookup on the value gives; members that are listed are present; nothing panics",
		Suites: []Suite{
			{
				Name: "methods", NoRace: true,
				Bound: "the methods of dicts of up to 3 members of 5 kinds, by 4 accesses",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					seqs(5, 0, 3, func(s []int) bool {
						s = append([]int(nil), s...)
						return y(Case{fmt.Sprint(s), func(t *T) { c08DictMethods(t, s) }})
					})
				}),
			},
			{
				Name: "wrapped", NoRace: true,
				Bound: "structs whose members are listed by the application: all subsets of 12 (quick: of up to 3 and all but up to 2) fields, methods and names of neither, accessed in 6 ways",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for mask := 0; mask < 1<<len(c08WrapAll); mask++ {
						if n := bits.OnesCount(uint(mask)); tier == Quick && n > 3 && n < 10 {
							continue
						}
						for _, p := range []bool{false, true} {
							if !y(Case{fmt.Sprintf("%b %v", mask, p), func(t *T) { c08Wrapper(t, mask, p) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "one step",
				Bound: "29 values of all kinds x 53 accesses + 323 ranges",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := c08Values()
					steps := append(c08Accs(tier), c08Slices()...)
					for i, v := range vals {
						for lo := 0; lo < len(steps); lo += 40 {
							hi := min(lo+40, len(steps))
							if !y(Case{fmt.Sprintf("v%d steps %d..", i, lo), func(t *T) { c08Check(t, c08Values(), fmt.Sprint("v", i), c08Model(v), steps[lo:hi]) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "two steps",
				Bound: "29 values x 53 accesses and 8 ranges twice (thorough: three times with 20 accesses)",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := c08Values()
					p := func(i int64) *int64 { return &i }
					steps := append(c08Accs(tier), accSlice(p(0), p(2)), accSlice(p(-2), nil), accSlice(p(1), nil), accSlice(nil, p(-1)),
						accSlice(nil, p(0)), accSlice(p(5), p(2)), accSlice(p(-9), p(9)), accSlice(p(2), p(3)))
					third := []c08Acc{accMember("A"), accMember("k"), accMember("nope"), accMember("X"), accKey("k"), accIndex(0), accIndex(-1), accIndex(1),
						accIndex(3), accSlice(p(0), p(1)), accSlice(p(-1), nil), accMember("L"), accMember("D"), accMember("P"), accKey("A"), accIndex(-2)}
					for i, v := range vals {
						for _, a := range steps {
							if !y(Case{fmt.Sprintf("v%d%s", i, a.text), func(t *T) {
								c08Check(t, c08Values(), fmt.Sprint("v", i, a.text), a.f(c08Model(v)), steps)
							}}) {
								return
							}
							if tier == Thorough {
								for _, b := range steps {
									if !y(Case{fmt.Sprintf("v%d%s%s", i, a.text, b.text), func(t *T) {
										c08Check(t, c08Values(), fmt.Sprint("v", i, a.text, b.text), b.f(a.f(c08Model(v))), third)
									}}) {
										return
									}
								}
							}
						}
					}
				}),
			},
			{
				Name:  "api",
				Bound: "29 values: members listed are accessible and the other way round; every index type and get()",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for i, v := range c08Values() {
						if !y(Case{fmt.Sprintf("members of v%d", i), func(t *T) { c08Members(t, v) }}) {
							return
						}
						if !y(Case{fmt.Sprintf("index types of v%d", i), func(t *T) { c08IndexTypes(t, v) }}) {
							return
						}
						if !y(Case{fmt.Sprintf("get() of v%d", i), func(t *T) { c08Get(t, v) }}) {
							return
						}
					}
					y(Case{"rows", c08RowCase})
				}),
			},
		},
	})
}

func c08Members(t *T, v any) {
	s := newEnv(t).scope
	m := c08Model(v)
	got := s.GetMembers(v)
	for _, k := range got {
		_, pres := s.Associative(v, k)
		if mo, ok := m.(*mobj); ok {
			if _, ok := mo.m[k]; !ok && k != "Boom" {
				t.Fail("listed", "%T lists %s", v, k)
			}
			if k == "Boom" {
				pres = true
			}
		}
		if !pres && show(v) != "nil" && m != nil {
			if _, ok := m.([]any); !ok {
				t.Fail("listed-absent", "%T lists %s but has none", v, k)
			}
		}
	}
	want := []string{}
	switch t := m.(type) {
	case *md:
		want = t.keys
	case *mobj:
		want = t.listed
	}
	have := " " + strings.Join(got, " ") + " "
	for _, k := range want {
		if !strings.Contains(have, " "+k+" ") {
			t.Fail("unlisted", "%T does not list %s: %v", v, k, got)
		}
	}
	if d, ok := m.(*md); ok {
		expect(t, "members", "members", fmt.Sprint(got), fmt.Sprint(append([]string{}, d.keys...)))
	}
	if m == nil && len(got) != 0 {
		t.Fail("null-members", "NULL has members %v", got)
	}
	t.Sig("%v", got)
}

func c08IndexTypes(t *T, v any) {
	s := newEnv(t).scope
	m := c08Model(v)
	one, f := int64(1), float64(1)
	oi, o32, ou := 1, int32(1), uint64(1)
	str := "A"
	var np *int64
	var ns *string
	for _, k := range []any{int(1), int8(1), int16(1), int32(1), int64(1), uint8(1), uint16(1), uint32(1), uint64(1), &one, &oi, &o32, &ou, f, uint(1)} {
		got, _ := s.Associative(v, k)
		expect(t, "index-type", fmt.Sprintf("%T[%T(1)]", v, k), c08Show(c08Got(got)), c08Show(c08Index(m, 1)))
	}
	for _, k := range []any{str} {
		got, _ := s.Associative(v, k)
		w, _ := c08Member(m, "A")
		expect(t, "key-type", fmt.Sprintf("%T[%T(A)]", v, k), c08Show(c08Got(got)), c08Show(w))
	}
	for _, k := range []any{np, ns, nil, types.Null{}, &types.Null{}, D(), []any{1}, time.Unix(0, 0), c08Inner{}, []*int64{}, []*int64{nil}, []*int64{nil, nil, nil}} {
		got, _ := s.Associative(v, k)
		if m == nil {
			continue
		}
		expect(t, "bad-key", fmt.Sprintf("%T[%T]", v, k), c08Show(c08Got(got)), "NULL")
	}
	t.Sig("%s", c08Show(m))
}

func c08Get(t *T, v any) {
	for _, p := range [][]c08Acc{
		{accMember("A")}, {accMember("k")}, {accMember("nope")}, {accIndex(0)}, {accIndex(-1)}, {accIndex(3)}, {accIndex(99)},
		{accMember("D"), accMember("k")}, {accMember("L"), accIndex(0)}, {accIndex(0), accMember("k")}, {accIndex(3), accMember("k")},
		{accMember("L"), accIndex(1), accMember("Y")}, {accMember("P"), accMember("X")}, {accMember("nope"), accMember("k")}, {accMember("A"), accMember("k"), accMember("A")},
	} {
		e := newEnv(t).set("v", v)
		var parts []string
		w := c08Model(v)
		for _, a := range p {
			parts = append(parts, strings.Trim(a.text, ".[]"))
			w = a.f(w)
		}
		path := strings.Join(parts, ".")
		got := e.eval("get(item=v, member='" + path + "')")
		if c08Model(v) == nil {
			// get() of NULL looks into the scope.
			continue
		}
		expect(t, "get", fmt.Sprintf("get(item=%T, member=%s)", v, path), c08Show(c08Got(got)), c08Show(w))
		t.Sig("%s", c08Show(w))
	}
}

func c08RowCase(t *T) {
	// Columns of rows, of materialised and of stored queries.
	e := newEnv(t)
	e.query("LET Q = SELECT i, i * 2 AS j FROM gen(n=3)")
	e.query("LET M <= SELECT i, i * 2 AS j FROM gen(n=3)")
	for _, q := range []string{"Q", "M"} {
		for _, c := range []struct{ text, want string }{
			{"@.j", "[0,2,4]"}, {"@.i[1]", "1"}, {"@[1].j", "2"}, {"@[0]", "{i:0,j:0}"}, {"@[2].i", "2"}, {"@.j[-1]", "4"}, {"@.j[1:]", "[2,4]"}, {"@.j[:1]", "[0]"},
		} {
			text := strings.ReplaceAll(c.text, "@", q)
			expect(t, "query-column", text, show(e.eval(text)), c.want)
		}
	}
	expect(t, "materialised", "M[-1]", show(e.eval("M[-1].j")), "4")
	expect(t, "materialised", "M[3]", show(e.eval("M[3]")), "NULL")
	expect(t, "materialised", "M[1:].j", show(e.eval("M[1:].j")), "[2,4]")
	rows := e.query("SELECT i, D.k AS k, D.`a b` AS s, D.nope AS n FROM foreach(row={SELECT i, dict(k=i + 1, `a b`='s') AS D FROM gen(n=2)})")
	expect(t, "row", "member of a column", showRows(rows), `{i:0,k:1,s:"s",n:NULL};{i:1,k:2,s:"s",n:NULL}`)
	// Rows that do not have the column.
	tb := []*Dict{D("a", int64(1)), D("b", int64(2)), D("a", nil, "b", int64(3)), D("a", int64(4), "b", int64(5)), D()}
	for mask := 0; mask < 1<<len(tb); mask++ {
		var rows []*Dict
		var a, b, x []string
		get := func(d *Dict, n string) string {
			v, ok := d.Get(n)
			if !ok || v == nil {
				return "NULL"
			}
			return show(v)
		}
		for i, d := range tb {
			if mask&(1<<i) != 0 {
				rows = append(rows, d)
				a, b, x = append(a, get(d, "a")), append(b, get(d, "b")), append(x, "NULL")
			}
		}
		e.set("T", copyTable(rows))
		for _, def := range []string{"LET H = SELECT * FROM T", "LET H <= SELECT * FROM T", "LET H = SELECT * FROM foreach(row=T)", "LET H(k) = SELECT * FROM T"} {
			e.query(def)
			h := "H"
			if strings.Contains(def, "(k)") {
				h = "H(k=1)"
			}
			for n, l := range map[string][]string{"a": a, "b": b, "nope": x} {
				if n == "nope" && strings.Contains(def, "<=") {
					// (Not a column of the table.)
					continue
				}
				if h == "H" {
					expect(t, "missing-column", fmt.Sprintf("%s with rows %s: H.%s", def, showRows(rows), n), show(e.eval("H."+n)), "["+strings.Join(l, ",")+"]")
				}
			}
		}
	}
	settle(t, "rows")
	t.Sig("rows")
}
