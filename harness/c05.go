package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"

	vfilter "REPO"
	"REPO/aggregators"
	"REPO/functions"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// tally: a stateful function of the application: appends to a string.
type tally struct {
	functions.Aggregator
}

func (f tally) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "tally", IsAggregate: true}
}
func (f tally) Copy() types.FunctionInterface { return tally{functions.NewAggregator()} }
func (f tally) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	v, _ := args.Get("item")
	v = lazyless(ctx, scope, v)
	old, pres := f.GetContext(scope)
	s := ""
	if pres {
		s = old.(string)
	}
	s += show(v) + ";"
	f.SetContext(scope, s)
	return s
}

func xTally(site int, a X) X {
	return X{"tally(item=" + a.s + ")", func(e *menv) any {
		s, _ := e.agg[site].(string)
		s += mshow(a.f(e)) + ";"
		e.agg[site] = s
		return s
	}}
}

func c05Vals() [][]any {
	return [][]any{
		{int64(1), int64(2), int64(-3), int64(0), types.Null{}},
		{"a", "b", "", types.Null{}, "ab"},
		{1.5, int64(1), int64(2), -0.5},
	}
}

func c05Cols(pool int) [][]Col {
	v, id := xName("v"), xName("id")
	cnt := func(s int) X { return xAgg(s, "count", X{}) }
	cols := [][]Col{
		{{cnt(1), "a"}, {cnt(2), "b"}, {xAgg(3, "min", v), "mi"}, {xAgg(4, "max", v), "ma"}},
		{{xAgg(1, "enumerate", v), "e"}, {xAgg(2, "enumerate", id), "f"}},
		{{xAgg(1, "min", v), "m"}, {xAgg(2, "min", id), "n"}, {xAgg(3, "max", id), "o"}},
		{{xTally(1, v), "t"}, {xTally(2, id), "u"}, {xOp("+", cnt(3), cnt(4)), "c"}},
		{{xIf(v, cnt(1), cnt(2)), "c"}, {cnt(3), "d"}},
		{{xList(cnt(1), cnt(2)), "l"}, {xDict("x", cnt(3)), "d"}},
		{{xAgg(1, "max", xAgg(2, "count", X{})), "m"}},
	}
	if pool == 0 {
		cols = append(cols, []Col{{xAgg(1, "sum", v), "s"}, {xAgg(2, "sum", id), "s2"}, {xAgg(3, "sum", xOp("+", id, id)), "s3"}})
	}
	return cols
}

func c05Env(t *T) *Env {
	e := newEnv(t)
	e.scope.AppendFunctions(tally{})
	return e
}

func c05Check(t *T, q *Q, setup, text string, tb []*Dict, evals int) {
	e := c05Env(t)
	e.set("T", copyTable(tb))
	tabPlugin(e, func() []types.Row { return copyTable(tb) })
	if setup != "" {
		e.query(setup)
	}
	stmts := mustParse(t, text)
	what := setup + " " + text + " over " + showRows(tb)
	want := mshowRows(q.eval(newMenv(newMd()), mtable(tb)))
	for i := 0; i < evals; i++ {
		sc := e.scope
		if i > 0 {
			// A new scope of the same application.
			e = c05Env(t)
			e.set("T", copyTable(tb))
			tabPlugin(e, func() []types.Row { return copyTable(tb) })
			if setup != "" {
				e.query(setup)
			}
			sc = e.scope
		}
		var rows []*Dict
		for _, s := range stmts {
			rows = collect(bg, sc, s)
		}
		if !expect(t, fmt.Sprintf("rows%d", i), fmt.Sprintf("%s, evaluation %d", what, i+1), showRows(rows), want) {
			break
		}
	}
	t.Sig("%s", want)
	settle(t, "aggregates")
}

// c05Runs: programs that use one definition several times.
var c05Runs = []struct{ setup, text, want string }{
	{"LET S(x) = SELECT count() AS c FROM gen(n=x)", "SELECT i, S(x=i) AS s FROM gen(n=4)",
		`{i:0,s:[]};{i:1,s:[{c:1}]};{i:2,s:[{c:1},{c:2}]};{i:3,s:[{c:1},{c:2},{c:3}]}`},
	{"LET S(x) = SELECT sum(item=i) AS c FROM gen(n=x) GROUP BY 1", "SELECT * FROM foreach(row={SELECT i FROM gen(n=4) WHERE i}, query={SELECT * FROM S(x=i)})",
		`{c:0};{c:1};{c:3}`},
	{"LET S(x) = SELECT count() AS c FROM gen(n=2)", "SELECT * FROM chain(a={SELECT * FROM S(x=1)}, b={SELECT * FROM S(x=2)})",
		`{c:1};{c:2};{c:1};{c:2}`},
	{"LET f(x) = count() + x", "SELECT f(x=i) AS a, f(x=10) AS b FROM gen(n=3)", `{a:1,b:11};{a:2,b:11};{a:3,b:11}`},
	{"LET f(x) = dict(n=count(), x=x)", "SELECT * FROM chain(a={SELECT * FROM f(x=1)}, b={SELECT * FROM f(x=2)}, c={SELECT f(x=3).n AS n FROM scope()})", `{n:1,x:1};{n:1,x:2};{n:1}`},
	{"LET f(x) = dict(n=sum(item=x))", "SELECT * FROM foreach(row={SELECT i FROM gen(n=3)}, query={SELECT * FROM f(x=i)})", `{n:0};{n:1};{n:2}`},
	{"", "SELECT i / 2 AS h, enumerate(items=i) AS e FROM gen(n=5) GROUP BY i > 2", `{h:f1,e:[0,1,2]};{h:f2,e:[3,4]}`},
	{"", "SELECT count() AS c, i FROM gen(n=3) WHERE count() > 1", `{c:1,i:1};{c:2,i:2}`},
	{"", "SELECT c FROM foreach(row={SELECT i FROM gen(n=2)}, query={SELECT count() AS c FROM gen(n=2) GROUP BY 1})", `{c:2};{c:2}`},
	{"", "SELECT i, {SELECT sum(item=i) AS s FROM gen(n=3) GROUP BY 1} AS s FROM gen(n=2)", `{i:0,s:3};{i:1,s:3}`},
	{"LET S = SELECT max(item=i) AS m FROM gen(n=3) GROUP BY 1", "SELECT S.m AS a, S.m AS b, S FROM gen(n=1)", `{a:[2],b:[2],S:[{m:2}]}`},
	{"LET S <= SELECT max(item=i) AS m, min(item=i) AS n, count() AS c FROM gen(n=3) GROUP BY 1", "SELECT * FROM S", `{m:2,n:0,c:3}`},
}

func c05RunCheck(t *T, i int, evals int) {
	r := c05Runs[i]
	for k := 0; k < evals; k++ {
		e := c05Env(t)
		if r.setup != "" {
			e.query(r.setup)
		}
		rows := e.query(r.text)
		got := showRows(rows)
		// A query column holds its rows.
		expect(t, "program", r.setup+" "+r.text, got, r.want)
		t.Sig("%s", got)
	}
	settle(t, "aggregates")
}

func ints(rows []*Dict, col string) []int {
	var r []int
	for _, d := range rows {
		v, _ := d.Get(col)
		var n int
		if _, err := fmt.Sscan(show(v), &n); err != nil {
			n = -999
		}
		r = append(r, n)
	}
	return r
}

func sortedInts(x []int) string {
	y := append([]int{}, x...)
	sort.Ints(y)
	return fmt.Sprint(y)
}

func c05Scenarios() []Scenario {
	worker := func(text string, check func(t *T, rows []*Dict)) func(t *T) {
		return func(t *T) {
			e := c05Env(t)
			rows := e.query(text)
			t.Sig("%s", multiset(rows))
			check(t, rows)
			settle(t, "aggregates")
		}
	}
	res := []Scenario{
		{
			Name: "count in a worker query", Quick: 2, Thorough: 3, Weight: 3,
			Body: worker("SELECT * FROM foreach(row={SELECT * FROM gen(n=3)}, workers=3, query={SELECT count() AS c FROM scope()})",
				func(t *T, rows []*Dict) {
					if got := sortedInts(ints(rows, "c")); got != "[1 2 3]" {
						t.Fail("worker-count", "counts over 3 rows by 3 workers: %s", got)
					}
				}),
		},
		{
			Name: "sum, max, min in a worker query", Quick: 1, Thorough: 2, Weight: 3,
			Body: worker("SELECT * FROM foreach(row={SELECT * FROM gen(n=2)}, workers=2, query={SELECT sum(item=i + 1) AS s, max(item=i) AS ma, min(item=i) AS mi, enumerate(items=i) AS e FROM scope()})",
				func(t *T, rows []*Dict) {
					s := ints(rows, "s")
					ma := ints(rows, "ma")
					mi := ints(rows, "mi")
					if len(s) != 2 {
						t.Fail("worker-rows", "rows: %s", showRows(rows))
						return
					}
					sort.Ints(s)
					if s[1] != 3 {
						t.Fail("worker-sum", "running sums of 1 and 2 by 2 workers: %v", s)
					}
					sort.Ints(ma)
					sort.Ints(mi)
					if ma[1] != 1 || mi[0] != 0 {
						t.Fail("worker-max", "max %v min %v", ma, mi)
					}
					long := false
					for _, r := range rows {
						e, _ := r.Get("e")
						if x := show(e); x == "[0,1]" || x == "[1,0]" {
							long = true
						}
					}
					if !long {
						t.Fail("worker-enumerate", "%s", showRows(rows))
					}
				}),
		},
		{
			Name: "group by over worker rows", Quick: 1, Thorough: 2,
			Body: worker("SELECT count() AS c, sum(item=x) AS s FROM foreach(row={SELECT * FROM gen(n=4)}, workers=2, query={SELECT i AS x FROM scope()}) GROUP BY 1",
				func(t *T, rows []*Dict) {
					if got := showRows(rows); got != "{c:4,s:6}" {
						t.Fail("worker-group", "got %s", got)
					}
				}),
		},
		{
			Name: "group by in worker queries", Quick: 1, Thorough: 2, Weight: 2,
			Body: worker("SELECT * FROM foreach(row={SELECT * FROM gen(n=2)}, workers=2, query={SELECT sum(item=i) AS s, count() AS c FROM gen(n=3) GROUP BY 1})",
				func(t *T, rows []*Dict) {
					if got := showRows(rows); got != "{s:3,c:3};{s:3,c:3}" {
						t.Fail("worker-bins", "got %s", got)
					}
				}),
		},
		{
			Name: "called definition in worker queries", Quick: 1, Thorough: 2, Weight: 2,
			Body: func(t *T) {
				e := c05Env(t)
				e.query("LET S(x) = SELECT count() AS c FROM gen(n=2)")
				rows := e.query("SELECT * FROM foreach(row={SELECT * FROM gen(n=2)}, workers=2, query={SELECT * FROM S(x=i)})")
				if got := sortedInts(ints(rows, "c")); got != "[1 1 2 2]" {
					t.Fail("worker-call", "got %s", showRows(rows))
				}
				t.Sig("%s", multiset(rows))
				settle(t, "aggregates")
			},
		},
		{
			Name: "two queries at once on scopes of their own", Quick: 2, Thorough: 3, Weight: 2,
			Body: func(t *T) {
				stmt := mustParse(t, "SELECT count() AS c, sum(item=i) AS s FROM gen(n=2)")[0]
				var wg sync.WaitGroup
				var got [2]string
				es := []*Env{c05Env(t), c05Env(t)}
				for i := range got {
					wg.Add(1)
					go func() {
						defer wg.Done()
						got[i] = showRows(collect(bg, es[i].scope, stmt))
					}()
				}
				wg.Wait()
				for _, g := range got {
					expect(t, "concurrent", "a query evaluated twice at once", g, "{c:1,s:0};{c:2,s:1}")
				}
				t.Sig("%v", got)
				settle(t, "aggregates")
			},
		},
		{
			Name: "two statements at once on copies of one scope", Quick: 2, Thorough: 3, Weight: 2,
			Body: func(t *T) {
				e := c05Env(t)
				a := mustParse(t, "SELECT count() AS c FROM gen(n=2)")[0]
				b := mustParse(t, "SELECT count() AS c, max(item=i) AS m FROM gen(n=2)")[0]
				var got [2]string
				var wg sync.WaitGroup
				for i, s := range []*vfilter.VQL{a, b} {
					wg.Add(1)
					go func() {
						defer wg.Done()
						sc := e.scope.Copy()
						defer sc.Close()
						got[i] = showRows(collect(bg, sc, s))
					}()
				}
				wg.Wait()
				expect(t, "concurrent", "first", got[0], "{c:1};{c:2}")
				expect(t, "concurrent", "second", got[1], "{c:1,m:0};{c:2,m:1}")
				t.Sig("%v", got)
				settle(t, "aggregates")
			},
		},
		{
			Name: "Modify", Quick: 4, Thorough: 8,
			Body: func(t *T) {
				ctx := aggregators.NewAggregatorCtx()
				var wg sync.WaitGroup
				for i := 0; i < 3; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < 2; k++ {
							ctx.Modify("a", func(old types.Any, pres bool) types.Any {
								n, _ := old.(int)
								return n + 1
							})
							ctx.Modify(fmt.Sprint("k", i), func(old types.Any, pres bool) types.Any { return k })
						}
					}()
				}
				wg.Wait()
				v := ctx.Modify("a", func(old types.Any, pres bool) types.Any { return old })
				if v != 6 {
					t.Fail("modify", "6 increments give %v", v)
				}
				t.Sig("%v", v)
			},
		},
		{
			Name: "the context of a scope tree", Quick: 3, Thorough: 5,
			Body: func(t *T) {
				// Children that ask at once get the root's context.
				s := vfilter.NewScope()
				var ctx [3]types.AggregatorCtx
				var wg sync.WaitGroup
				for i := range ctx {
					wg.Add(1)
					go func() {
						defer wg.Done()
						c := s.Copy()
						defer c.Close()
						ctx[i] = c.GetAggregatorCtx()
					}()
				}
				wg.Wait()
				if ctx[0] != ctx[1] || ctx[1] != ctx[2] {
					t.Fail("ctx", "children see different contexts")
				}
				c := s.Copy()
				c.SetAggregatorCtx(nil)
				if c.GetAggregatorCtx() == ctx[0] || c.Copy().GetAggregatorCtx() != c.GetAggregatorCtx() {
					t.Fail("ctx-new", "a scope with a new context does not have its own")
				}
				s.Close()
				t.Sig("ok")
			},
		},
	}
	return res
}

func init() {
	register(&Prop{
		ID:    "C05",
		Level: "model_checking",
		Rule:  "every running value equals the reference accumulator of its call site and bin; with several workers the updates of all rows are present in every schedule",
		Suites: []Suite{
			{
				Name: "sizes", NoRace: true, Steps: 1 << 30,
				Bound: "n = 0..34 and around 50, 64, 100, 128, 200, 256 and 300 (thorough: 0..300 and around 512, 1000 and 1024) rows",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 0, y, sizeAggregates) }),
			},
			{
				Name: "sequences", NoRace: true,
				Bound: "all sequences of 0..4 items (thorough 5) from pools of 5 integers, 5 strings, 4 mixed numbers (with NULL) x 8 column lists x grouped/ungrouped x 3 sources, each statement evaluated twice on two scopes",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 4
					if tier == Thorough {
						max = 5
					}
					n := 0
					for pi, pool := range c05Vals() {
						ok := seqs(len(pool), 0, max, func(idx []int) bool {
							var tb []*Dict
							for i, k := range idx {
								tb = append(tb, D("id", int64(i), "v", pool[k]))
							}
							for _, cols := range c05Cols(pi) {
								n++
								q := &Q{cols: cols, limit: -1, from: "T"}
								if n%2 == 0 {
									q.group = []X{xOp(">", xName("id"), xLit("1", int64(1)))}
								}
								setup := ""
								switch n % 5 {
								case 3:
									setup = "LET S = SELECT * FROM T"
									q.from = "S"
								case 4:
									q.from = "tab()"
								}
								if !y(Case{fmt.Sprintf("%v %s %s", idx, setup, q.text()), func(t *T) { c05Check(t, q, setup, q.text(), tb, 2) }}) {
									return false
								}
							}
							return true
						})
						if !ok {
							return
						}
					}
				}),
			},
			{
				Name: "programs", NoRace: true,
				Bound: fmt.Sprintf("%d programs that use a definition several times", len(c05Runs)),
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for i := range c05Runs {
						if !y(Case{c05Runs[i].setup + " " + c05Runs[i].text, func(t *T) { c05RunCheck(t, i, 2) }}) {
							return
						}
					}
				}),
			},
		},
		Scenarios: c05Scenarios,
	})
}

var _ = strings.Join
