package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	vfilter "REPO"
	"REPO/marshal"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// c24Num writes numbers by their value alone.
func c24Num(v any) any {
	switch t := v.(type) {
	case float64:
		if t == math.Trunc(t) && math.Abs(t) < 1<<53 {
			return int64(t)
		}
	case float32:
		return c24Num(float64(t))
	case *ordereddict.Dict:
		d := ordereddict.NewDict()
		for _, i := range t.Items() {
			d.Set(i.Key, c24Num(i.Value))
		}
		return d
	case time.Time:
		return c24Time(t)
	}
	if rv := reflect.ValueOf(v); rv.IsValid() && rv.Kind() == reflect.Slice {
		l := []any{}
		for i := 0; i < rv.Len(); i++ {
			l = append(l, c24Num(rv.Index(i).Interface()))
		}
		return l
	}
	return v
}

// c24Time stands for a time in what c24Num gives.
type c24Time time.Time

// c24Env is what a saved scope is loaded into.
func c24Env(t *T) *Env {
	e := newEnv(t)
	e.scope.AppendPlugins(genericList("vals", func() []types.Row {
		return []types.Row{
			D("a", int64(2), "b c", int64(5), "c", int64(4)),
			D("a", int64(0), "b c", 1.5, "c", "s"),
			D("a", "s", "b c", types.Null{}, "c", []types.Any{int64(3)}),
			D("a", int64(3), "b c", int64(3), "c", int64(0)),
		}
	}))
	return e
}

// c24Save saves a scope as JSON.
func c24Save(t *T, e *Env) []byte {
	item, err := marshal.Marshal(e.scope, e.scope)
	if err != nil {
		t.Fail("save", "saving the scope: %v", err)
		return nil
	}
	data, err := json.Marshal(item)
	if err != nil {
		t.Fail("save", "saving the scope: %v", err)
	}
	return data
}

func c24Load(t *T, data []byte, ignore []string) *Env {
	item := &types.MarshalItem{}
	if err := json.Unmarshal(data, item); err != nil {
		t.Fail("load", "%s: %v", data, err)
		return nil
	}
	e := c24Env(t)
	u := vfilter.NewUnmarshaller(ignore)
	res, err := u.Unmarshal(u, e.scope, item)
	if err != nil {
		t.Fail("load", "%s: %v", data, err)
		return nil
	}
	scope, ok := res.(types.Scope)
	if !ok {
		t.Fail("load", "%s loads as %T", data, res)
		return nil
	}
	e.scope = scope
	return e
}

// c24Names lists the variables in a saved scope.
func c24Names(data []byte) map[string]any {
	var s struct {
		Data struct{ Vars map[string]any }
	}
	json.Unmarshal(data, &s)
	return s.Data.Vars
}

// c24Show marks times that were written as strings.
func c24Show(v any) string {
	switch t := v.(type) {
	case c24Time:
		s, _ := time.Time(t).MarshalText()
		return fmt.Sprintf("<time>%q", s)
	case *ordereddict.Dict:
		var parts []string
		for _, i := range t.Items() {
			parts = append(parts, i.Key+":"+c24Show(i.Value))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case []any:
		var parts []string
		for _, x := range t {
			parts = append(parts, c24Show(x))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	return show(v)
}

// c24Probe runs a query and tells all that can be seen of it.
func c24Probe(e *Env, q string) string {
	var sb strings.Builder
	for _, r := range e.query(q) {
		sb.WriteString(c24Show(c24Num(r)) + ";")
	}
	sb.WriteString("|")
	for _, n := range strings.Fields(e.takeTrace()) {
		if !strings.HasPrefix(n, "open-") && !strings.HasPrefix(n, "cancelled-") {
			sb.WriteString(n + " ")
		}
	}
	sb.WriteString("|")
	for _, l := range e.errorLogs() {
		// (The scopes have different numbers of frames.)
		l, _, _ = strings.Cut(l, ". Current Scope is")
		sb.WriteString(l + ";")
	}
	e.lmu.Lock()
	e.logs = nil
	e.lmu.Unlock()
	return sb.String()
}

// c24Same saves and loads the scope, twice, and compares all three scopes.
func c24Same(t *T, what string, e *Env, probes ...string) {
	if data := c24Save(t, e); data != nil {
		c24SameData(t, what, e, data, probes...)
	}
}

func c24SameData(t *T, what string, e *Env, data []byte, probes ...string) {
	// A materialised query is restored as the list of its rows.
	for _, n := range []string{"X", "Y", "Z"} {
		if v, ok := e.scope.Resolve(n); ok && strings.Contains(fmt.Sprintf("%T", v), "materializer.") {
			probes = nil
			for _, n := range []string{"X", "Y", "Z"} {
				for _, q := range []string{"SELECT $ FROM scope()", "SELECT * FROM $", "SELECT $[0] AS k FROM scope()", "SELECT len(list=$) AS n FROM scope()", "SELECT * FROM foreach(row=$)"} {
					probes = append(probes, strings.ReplaceAll(q, "$", n))
				}
			}
		}
	}
	e.takeTrace()
	e.lmu.Lock()
	e.logs = nil
	e.lmu.Unlock()
	e2 := c24Load(t, data, nil)
	if e2 == nil {
		return
	}
	for _, l := range e2.errorLogs() {
		t.Fail("load-log", "%s: loading %s logs %s", what, data, l)
	}
	e2.logs = nil
	if tr := strings.TrimSpace(e2.takeTrace()); tr != "" {
		t.Fail("load-effect", "%s: loading %s calls %s", what, data, tr)
	}
	data2 := c24Save(t, e2)
	e2.takeTrace()
	e2.logs = nil
	var e3 *Env
	if string(data2) != string(data) {
		if e3 = c24Load(t, data2, nil); e3 == nil {
			return
		}
		e3.takeTrace()
		e3.logs = nil
	}
	for _, q := range probes {
		want := c24Probe(e, q)
		if strings.Contains(want, "<*") {
			t.Sig("opaque")
			continue
		}
		got := c24Probe(e2, q)
		if got != want && strings.ReplaceAll(got, "<time>", "") == want {
			t.Fail("time-strings", "%s: %s: a string that looks like a time comes back as a time: got %s, want %s", what, q, got, want)
			continue
		}
		if expect(t, "restored", fmt.Sprintf("%s: %s", what, q), got, want) && e3 != nil {
			expect(t, "restored-twice", fmt.Sprintf("%s: %s after loading %s", what, q, data2), c24Probe(e3, q), want)
		}
		t.Sig("%s", trunc(want, 100))
	}
}

type c24Value struct {
	name string
	v    any
}

func c24Scalars() []c24Value {
	r := []c24Value{
		{"nil", nil}, {"Null", types.Null{}}, {"&Null", &types.Null{}}, {"true", true}, {"false", false},
		{"int(3)", 3}, {"int8", int8(-3)}, {"uint8", uint8(200)}, {"int16", int16(-300)}, {"uint16", uint16(300)}, {"int32", int32(-70000)}, {"uint32", uint32(1 << 31)},
		{"MaxInt64", int64(math.MaxInt64)}, {"MinInt64", int64(math.MinInt64)}, {"2^53+1", int64(1<<53 + 1)}, {"-2^53-1", int64(-1<<53 - 1)}, {"0", int64(0)}, {"-1", int64(-1)},
		{"1.5", 1.5}, {"0.1", 0.1}, {"2.0", 2.0}, {"-0.25", -0.25}, {"1e-7", 1e-7}, {"1e21", 1e21}, {"1e300", 1e300}, {"5e-324", 5e-324}, {"MaxFloat", math.MaxFloat64}, {"0.0", 0.0}, {"float32", float32(0.5)},
	}
	for _, s := range []string{"", "a", "it's", `"q"`, "a\\b", "a\nb\t", "<&>", "\u00e9\u4e16\u2028\U0001F600", "\x00\x01\x7f", "2020-01-01T00:00:00Z", "2020-01-01", "1", "1.5", "true", "null", "NULL", "{}", "[1]", "LET X = 1", "`x`", "'''", "0x10", "1e3", "%d", strings.Repeat("x", 300)} {
		r = append(r, c24Value{fmt.Sprintf("%q", trunc(s, 20)), s})
	}
	return r
}

func c24Values() []c24Value {
	sc := c24Scalars()
	r := append([]c24Value{}, sc...)
	// Every scalar within a list, a dict and both.
	for _, s := range sc {
		s := s
		r = append(r,
			c24Value{"[" + s.name + "]", []any{s.v}},
			c24Value{"{k: " + s.name + "}", D("k", s.v, "k2", int64(1))},
			c24Value{"[{}]", []any{D("k", s.v), int64(1)}},
			c24Value{"[[]]", []any{[]any{s.v}, []any{}}},
			c24Value{"{k: {}}", D("k", D("z", s.v, "b", int64(1), "a", int64(2)), "b", D(), "a", []any{})},
			c24Value{"{k: []}", D("k", []any{s.v, D("z", int64(1), "a", s.v)})},
			c24Value{"rows", []types.Row{D("k", s.v), D("k", int64(2))}},
			c24Value{"dicts", []*ordereddict.Dict{D("k", s.v), D("k", int64(2))}},
		)
	}
	r = append(r,
		c24Value{"[]", []any{}}, c24Value{"{}", D()}, c24Value{"[]string", []string{"a", "b"}}, c24Value{"[]int64", []int64{1, 2}}, c24Value{"[]int", []int{1}}, c24Value{"[]float64", []float64{1.5, 2}},
		c24Value{"keys", D("b", int64(1), "a", int64(2), "", int64(3), "k k", int64(4), "`", int64(5), "\"", int64(6), "'", int64(7), "\n", int64(8), "_value", int64(9), "A", int64(10))},
		c24Value{"nested keys", D("k", D("b", int64(1), "a", int64(2), "", int64(3), "k k", int64(4), "`", int64(5), "\"", int64(6), "\n", int64(8), "_value", D("", D("", []any{D("", "")})), "A", int64(10)), "", D("", int64(1)))},
		c24Value{"listed keys", []any{D("", int64(1), "b", int64(2), "a", D("", int64(3), "'", int64(4)))}},
		c24Value{"deep", D("a", D("a", D("a", D("a", []any{[]any{[]any{D("z", int64(1), "a", []any{})}}}))))},
	)
	return r
}

// Values that cannot be saved.
type c24Bad struct{}

func (c24Bad) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("cannot be saved") }

type c24Panic struct{ p *int }

func c24Unsupported() []c24Value {
	return []c24Value{
		{"func", func() {}}, {"chan", make(chan int)}, {"NaN", math.NaN()}, {"Inf", math.Inf(1)}, {"-Inf", math.Inf(-1)}, {"complex", complex(1, 2)}, {"error", c24Bad{}},
		{"[func]", []any{func() {}}}, {"{NaN}", D("k", math.NaN())}, {"{func}", D("k", func() {})}, {"map", map[any]any{1: 2}}, {"[NaN]", []any{math.NaN()}}, {"typed nil", (*c24Panic)(nil)}, {"nil dict", (*ordereddict.Dict)(nil)}, {"nil list", []any(nil)},
		{"struct", c24Panic{}}, {"function", &vfilter.GenericFunction{FunctionName: "zz"}}, {"scope", types.Scope(vfilter.NewScope())},
	}
}

var c24ValueProbes = []string{
	"SELECT X FROM scope()", "SELECT X.k AS k, X[0] AS f, X.k.z AS z, X.nosuch AS n FROM scope()", "SELECT * FROM X", "SELECT len(list=X) AS n FROM scope()", "SELECT X = X AS e, X + X AS p, X IN (1, 'a') AS i, X < 3 AS l FROM scope()", "SELECT * FROM foreach(row=X)",
}

// Definitions that the suites combine; names are X, Y, Z.
var c24Defs = []string{
	"LET $ = 5", "LET $ = fx(v=3, n='f')", "LET $ <= 7", "LET $ <= SELECT i FROM gen(n=3, name='g')", "LET $ = SELECT i FROM gen(n=3, name='g')", "LET $(p) = dict(p=p)", "LET $(p, q=2) = (p, q)", "LET $(`p p`, q='a b') = SELECT `p p` AS i, q FROM scope()",
	"LET $ = @", "LET $ <= @", "LET $(p) = @", "LET $ = SELECT *, 1 AS j FROM @", "LET $ = SELECT @ AS i FROM scope()", "LET $(p) = SELECT @(p=p) AS i FROM scope()", "LET $ = dict(k=@, l=1)", "LET $ = 'x' + @", "LET $ <= dict(k=1, b=(1, 2), a=dict(z=2.5, y=NULL))", "LET $ <= ('a', 2, TRUE)",
}

var c24DefProbes = []string{
	"SELECT $ FROM scope()", "SELECT $(p=1) AS r FROM scope()", "SELECT $(`p p`=1) AS r FROM scope()", "SELECT * FROM $", "SELECT * FROM $(p=2)", "SELECT * FROM $(p=2, q=3)", "SELECT * FROM $(`p p`=2)", "SELECT $.k AS k, $.i AS i FROM scope()", "SELECT $[0] AS k FROM scope()",
	"LET R(p) = 'other' LET p = 9 SELECT $ AS r FROM scope()",
}

// c24Stored saves many definitions in one scope.
func c24Stored(t *T, tier Tier, b []string) {
	e := poolEnv(t)
	var probes []string
	for j, x := range b {
		for i, def := range []string{"LET $ = " + x, "LET $(p) = " + x, "LET $(p=" + x + ") = p", "LET $ = SELECT " + x + " AS r FROM vals()", "LET $(p) = SELECT a, p FROM vals() WHERE " + x, "LET $(`p q`=1, p=" + x + ") = SELECT `p q`, p FROM vals()", "LET $ <= " + x} {
			if tier == Quick && i > 0 && (i+len(x))%3 != 0 {
				continue
			}
			name := fmt.Sprintf("X%d_%d", j, i)
			stmts, err := vfilter.MultiParse(strings.Replace(def, "$", name, 1))
			if err != nil {
				t.Sig("invalid")
				continue
			}
			e.run(bg, stmts...)
			use := []string{"SELECT $ AS r FROM vals()", "SELECT $(p=1) AS r FROM scope()", "SELECT $() AS r FROM scope()", "SELECT * FROM $", "SELECT * FROM $(p=1)", "SELECT * FROM $(p=1)", "SELECT $ AS r FROM scope()"}[i]
			probes = append(probes, strings.Replace(use, "$", name, 1))
			if i == 0 {
				probes = append(probes, "SELECT * FROM "+name)
			}
		}
	}
	c24Same(t, fmt.Sprintf("%q", b), e, probes...)
}

func init() {
	register(&Prop{
		ID:    "C24",
		Level: "model_checking",
		Rule:  "each query gives the same rows, side effects and messages in the scope and in the scope that is saved, loaded, saved and loaded; other variables are restored beside any that cannot be saved",
		Suites: []Suite{
			{
				Name:  "values",
				Bound: "each of 54 scalars alone and in 8 kinds of lists, dicts and rows, and lists and dicts of other kinds, x 6 queries",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, v := range c24Values() {
						if !y(Case{fmt.Sprintf("%s %s", v.name, trunc(show(v.v), 60)), func(t *T) {
							e := c24Env(t)
							e.set("X", v.v)
							c24Same(t, v.name, e, c24ValueProbes...)
						}}) {
							return
						}
					}
				}),
			},
			{
				Name:  "stored",
				Bound: "each expression of the pool as LET X =, LET X <=, LET X(p) =, a default, a column and a condition of a stored query, in the scope of the pool",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 0
					batches(10, func(y func(string) bool) bool { return poolExprs(Quick, y) }, func(b []string) bool {
						n++
						return y(Case{fmt.Sprintf("%d: %s ..", n, trunc(b[0], 60)), func(t *T) { c24Stored(t, tier, b) }})
					})
				}),
			},
			{
				Name:  "statements",
				Bound: "each statement of the pool (with its definitions) run in the saved scope",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(Quick, poolStmts, y, func(t *T, text string) {
						if tier == Quick && len(text)%3 != 0 && !strings.HasPrefix(text, "LET") {
							t.Sig("skip")
							return
						}
						stmts, err := vfilter.MultiParse(text)
						if err != nil || strings.Contains(text, "<= SELECT") && strings.Contains(text, "= X(") {
							t.Sig("invalid")
							return
						}
						e := poolEnv(t)
						e.run(bg, stmts[:len(stmts)-1]...)
						c24Same(t, text, e, vfilter.FormatToString(e.scope, stmts[len(stmts)-1]))
					})
				}),
			},
			{
				Name:  "definitions",
				Bound: "all sequences of two definitions (thorough three) of X, Y and Z (also redefined, and within a nested scope) from 19 forms that refer to each other, x 10 queries per name",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					names := []string{"X", "Y", "Z"}
					gen := func(n int) bool {
						return seqs(len(c24Defs), n, n, func(s []int) bool {
							for k := 0; k < 3; k++ {
								dir, redefine := []int{-1, 1, -1}[k], k == 2
								if n == 1 && k > 0 {
									continue
								}
								var defs []string
								nm := names[:n]
								if redefine {
									nm = []string{"X", "X", "Y"}[:n]
								}
								for i, d := range s {
									d := strings.Replace(c24Defs[d], "$", nm[i], 1)
									// To the one before or after it.
									other := "W"
									if j := i + dir; j >= 0 && j < n && nm[j] != nm[i] {
										other = nm[j]
									}
									defs = append(defs, strings.Replace(d, "@", other, 1))
								}
								text := strings.Join(defs, " ")
								if strings.Contains(text, "(p=") && strings.Contains(text, "<= ") {
									continue
								}
								if strings.Contains(text, "+") && strings.Contains(text, "<= ") {
									continue
								}
								if !y(Case{text, func(t *T) {
									for _, nested := range []bool{false, true} {
										e := c24Env(t)
										e.set("W", D("k", int64(1), "i", int64(3)))
										for i, d := range defs {
											if nested && i > 0 {
												e.scope = e.scope.Copy()
												e.set("other", int64(i))
											}
											e.run(bg, mustParse(t, d)...)
										}
										var probes []string
										for _, n := range nm {
											for _, p := range c24DefProbes {
												probes = append(probes, strings.ReplaceAll(p, "$", n))
											}
										}
										c24Same(t, text, e, probes...)
									}
								}}) {
									return false
								}
							}
							return true
						})
					}
					_ = gen(1) && gen(2)
					if tier == Thorough {
						gen(3)
					}
				}),
			},
			{
				Name:  "unsupported",
				Bound: "each of 18 values that cannot be saved before, between and after others, in the same frame and a later one, x all 19 definitions",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, b := range c24Unsupported() {
						for i, def := range c24Defs {
							if tier == Quick && i%3 != 0 {
								continue
							}
							for pos := 0; pos < 4; pos++ {
								text := strings.Replace(strings.Replace(def, "$", "X", 1), "@", "W", 1)
								if !y(Case{fmt.Sprintf("%s at %d beside %s", b.name, pos, text), func(t *T) {
									e := c24Env(t)
									if pos == 0 {
										e.set("Bad", b.v)
									}
									e.set("W", D("k", int64(1)))
									if pos == 1 {
										e.set("Bad", b.v)
									}
									e.run(bg, mustParse(t, text)...)
									if pos == 2 {
										e.set("Bad", b.v)
									}
									if pos == 3 {
										e.scope.AppendVars(ordereddict.NewDict().Set("V", int64(1)).Set("Bad", b.v).Set("Z", int64(2)))
									} else {
										e.set("V", int64(1)).set("Z", int64(2))
									}
									data := c24Save(t, e)
									if data == nil {
										return
									}
									saved := c24Names(data)
									if _, pres := saved["Bad"]; !pres && !e.hasLog("Bad") {
										t.Fail("silent", "%s: not saved and not reported (%q)", b.name, e.errorLogs())
									}
									var probes []string
									for _, p := range c24DefProbes {
										probes = append(probes, strings.ReplaceAll(p, "$", "X"))
									}
									c24SameData(t, b.name+" beside "+text, e, data, append(probes, "SELECT V, W, Z FROM scope()")...)
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "ignored",
				Bound: "all subsets of 4 variables of different kinds ignored on loading; into a scope that has variables of the same and other names",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					names := []string{"X", "Y", "Z", "W"}
					for mask := 0; mask < 16; mask++ {
						if !y(Case{fmt.Sprintf("ignore %04b", mask), func(t *T) {
							e := c24Env(t)
							e.set("X", int64(1))
							e.query("LET Y = 2 LET Z <= 3 LET W(a) = SELECT a FROM scope()")
							data := c24Save(t, e)
							var ignore []string
							want := "{"
							for i, n := range names {
								v := []string{"1", "2", "3", "[{a:4}]"}[i]
								if mask>>i&1 == 1 {
									ignore = append(ignore, n)
									v = "NULL"
								}
								want += n + ":" + v + ","
							}
							if e2 := c24Load(t, data, ignore); e2 != nil {
								rows := e2.query("SELECT X, Y, Z, W(a=4) AS W FROM scope()")
								w := strings.TrimSuffix(want, ",") + "}"
								expect(t, "ignored", "loading without "+join(ignore), strings.ReplaceAll(showRows(rows), "<*vfilter._StoredQuery>", "[{a:4}]"), w)
							}
						}}) {
							return
						}
					}
				}),
			},
		},
	})
}
