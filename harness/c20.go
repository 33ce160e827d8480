package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/types"
)

// Statements whose parsed form holds something that evaluating them fills in,
// or whose evaluation shares something.
var c20Queries = []string{
	"SELECT fx(v=i, n='a') AS x, i + 1 AS y, -i AS z, NOT i AS w FROM S",
	"SELECT *, i AS j FROM S WHERE i = 1 OR fx(v=i, n='w') AND NOT i > 5",
	"SELECT 1, 2.5, 'a', TRUE, NULL, 0x10, 1e3, '''raw''', -7, -2.5 FROM scope()",
	"SELECT D.k, D.c, D['b'], L[0], L[1:], L[(1 - 1)], (1, 2)[0], D.nosuch FROM S",
	"SELECT i =~ 'o' AS a, 'x1' =~ '[0-9]' AS b, L =~ '^a$' AS c, 'a' =~ ('x', 'a') AS d, 'X' =~ 'x' AS e FROM S",
	"SELECT i IN (0, 1) AS a, i < 1 AS b, i >= 1.0 AS c, i * 2 - 3 / 4 AS d, i != i AS e FROM S",
	"SELECT (1, (2, i)) AS a, (i, ) AS b, dict(a=[1, i], b=[], c=[(1, 2)]) AS c FROM S",
	"SELECT dict(a=i, `b c`=dict(d=i)) AS d, d.a AS e FROM S",
	"SELECT nosuch AS a, nosuch.b AS b, nosuchf(v=1) AS c, fx AS d FROM S",
	"SELECT nosuch(v=i) AS a FROM S",
	"SELECT * FROM nosuch(v=1)",
	"SELECT i FROM S ORDER BY i DESC LIMIT 1",
	"SELECT i, count() AS c, sum(item=i) AS s, min(item=i) AS m, max(item=i) AS x, enumerate(items=i) AS e FROM S GROUP BY i",
	"SELECT count() AS c, i FROM S",
	"SELECT count() AS c, i FROM S WHERE count() > 1",
	"SELECT count() AS c, { SELECT count() AS d FROM R } AS s FROM S GROUP BY 1",
	"SELECT { SELECT i AS k FROM R } AS s, { SELECT i FROM R WHERE i > 5 } AS n FROM S",
	"SELECT { SELECT i AS k, i AS l FROM R } AS s FROM S",
	"SELECT * FROM foreach(row={ SELECT i AS x FROM S }, query={ SELECT x, i FROM R WHERE i <= x })",
	"SELECT * FROM foreach(row=[dict(x=1), dict(x=2)], query={ SELECT x, i FROM R })",
	"SELECT * FROM foreach(row=L, query={ SELECT _value, i FROM R })",
	"SELECT * FROM foreach(row={ SELECT i AS x FROM S }, query={ SELECT * FROM foreach(row={ SELECT i AS y FROM R }, query={ SELECT x, y, count() AS c FROM scope() }) })",
	"SELECT * FROM foreach(row={ SELECT i AS x FROM S }, column='x')",
	"SELECT * FROM chain(a={ SELECT i FROM S }, b={ SELECT i + 1 AS i FROM R })",
	"SELECT * FROM flatten(query={ SELECT i, (1, 2) AS j FROM S })",
	"SELECT * FROM if(condition=D.k, then={ SELECT i FROM S }, else={ SELECT i FROM R })",
	"SELECT if(condition=i, then=fx(v=i, n='t'), else=fx(v=7, n='e')) AS x FROM S",
	"SELECT * FROM range(start=0, end=3)",
	"SELECT * FROM showargs(a=1, b={ SELECT i FROM R }, c=L, d=[1, 2])",
	"LET X = fx(v=i, n='x') SELECT X, X + 1 AS b FROM S",
	"LET X = SELECT i AS k FROM S SELECT X AS a, X.k AS b, X[0] AS c, i IN X.k AS d FROM R",
	"LET X <= SELECT i AS k FROM S SELECT X AS a, X.k AS b, X[0] AS c, i IN X.k AS d FROM R",
	"LET X <= SELECT i AS k FROM S SELECT * FROM X",
	"LET X = SELECT i AS k FROM S SELECT * FROM X WHERE k",
	"LET X(p) = SELECT i + p AS k FROM S SELECT X(p=i) AS a FROM R",
	"LET X(p) = SELECT i + p AS k FROM S SELECT * FROM X(p=5)",
	"LET X(p, q=2) = p * q SELECT X(p=i) AS a, X(p=i, q=i) AS b, X(p=3) AS c FROM S",
	"LET X(p) = if(condition=p > 0, then=p + X(p=p - 1), else=0) SELECT X(p=i + 1) AS a FROM S",
	"LET X(p={ SELECT i FROM R }) = p SELECT X() AS a, X(p=i) AS b FROM S",
	"LET X(p) = SELECT count() AS c FROM p SELECT * FROM X(p={ SELECT * FROM S })",
	"LET X <= fx(v=3, n='x') LET Y <= X + 1 SELECT X, Y FROM R",
	"LET X <= dict(a=1, f={ SELECT i FROM R }) SELECT X.a AS a, X.f AS f FROM R",
	"LET X = dict(a={ SELECT i FROM R }) SELECT X.a.i AS a FROM R",
	"LET f(x) = x + x SELECT f(x=1) AS a, f AS b FROM R",
	"SELECT get(item=D, field='k') AS a, get(member='D.k') AS b, len(list=L) AS c, format(format='%v-%v', args=[i, 2]) AS d, split(string='a,b', sep=',') AS e, encode(string='x', type='hex') AS f FROM S",
	"SELECT timestamp(epoch=i) AS t, timestamp(string='2020-01-01') AS u FROM S",
	"EXPLAIN SELECT i, fx(v=i, n='x') AS x FROM S WHERE i ORDER BY i",
	"SELECT i FROM S WHERE i =~ D.k AND 'aa' =~ format(format='%v', args=['a'])",
	"SELECT sleep(ms=1) AS z FROM R",
	"SELECT vv, k.x AS x, k FROM vals3() WHERE vv",
	"SELECT * FROM vals3() ORDER BY vv DESC",
	"SELECT *, vv + 1 AS vv FROM vals3()",
}

func c20Env(t *T) *Env {
	e := c19Env(t)
	e.set("L", []string{"a", "b"})
	e.scope.AppendPlugins(genericList("vals3", func() []types.Row {
		return []types.Row{
			struct {
				K  map[string]int
				Vv int
			}{map[string]int{"x": 1}, 5},
			map[string]any{"k": D("x", 2), "vv": 1},
			D("k", D("x", 3), "vv", 2),
		}
	}))
	return e
}

type c20Alone struct {
	rows    []string
	effects string
	format  string
	outline string
}

var c20Known = map[string]*c20Alone{}

// c20Expected: what the statements give when they are evaluated alone.
func c20Expected(text string, env func(t *T) *Env) *c20Alone {
	if a := c20Known[text]; a != nil {
		return a
	}
	a := &c20Alone{}
	vsched.Run(func() {
		t := &T{Case: text}
		e := env(t)
		stmts := mustParse(t, text)
		for _, s := range stmts {
			a.rows = append(a.rows, showRows(collect(bg, e.scope, s)))
		}
		vsched.Quiesce()
		a.effects = c20Effects(e)
		stmts = mustParse(t, text)
		a.format, a.outline = c20Format(e.scope, stmts), c20Outline(stmts)
	}, nil, vsched.Options{MaxSteps: 1000000})
	if len(c20Known) < 20000 {
		c20Known[text] = a
	}
	return a
}

func c20Effects(e *Env) string {
	u := &T{}
	c19Effects(u, e)
	l := strings.Split(strings.Join(u.sigs, "\n"), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func c20Format(scope types.Scope, stmts []*vfilter.VQL) string {
	var r []string
	for _, s := range stmts {
		r = append(r, vfilter.FormatToString(scope, s))
	}
	return strings.Join(r, "\n")
}

func c20Outline(stmts []*vfilter.VQL) string {
	var r []string
	var rec func(o *vfilter.OutlineInfo)
	rec = func(o *vfilter.OutlineInfo) {
		if o == nil {
			r = append(r, "-")
			return
		}
		r = append(r, fmt.Sprintf("%s %s %v %v %d", o.Kind, o.Name, o.Pos, o.EndPos, len(o.Children)))
		for _, c := range o.Children {
			rec(c)
		}
	}
	for _, s := range stmts {
		rec(vfilter.Outline(s))
	}
	return strings.Join(r, "\n")
}

type c20Got struct {
	what  string
	kind  string // rows, last (rows of the last statement), effects, format, outline
	value []string
}

// c20Run evaluates statements n times at once.
//
//	own: each evaluation in its own scope
//	copies: in copies of one scope, in which all but the last were evaluated
//	all copies: all statements in copies of one scope
//	format: as own, and one more goroutine prints and outlines them
func c20Run(t *T, text, mode string, n int, env func(t *T) *Env) {
	stmts := mustParse(t, text)
	var mu sync.Mutex
	var got []c20Got
	put := func(what, kind string, value ...string) {
		mu.Lock()
		got = append(got, c20Got{what, kind, value})
		mu.Unlock()
	}
	// The state of aggregate functions (outside of GROUP BY) belongs to the
	// scope and is shared with its copies.
	isolate := func(s types.Scope) types.Scope {
		for _, f := range []string{"count(", "sum(", "min(", "max(", "enumerate("} {
			if strings.Contains(text, f) {
				s.SetAggregatorCtx(nil)
				break
			}
		}
		return s
	}
	var wg sync.WaitGroup
	eval := func(what, kind string, scope types.Scope, stmts []*vfilter.VQL) {
		var rows []string
		for _, s := range stmts {
			rows = append(rows, showRows(collect(bg, scope, s)))
		}
		put(what, kind, rows...)
	}
	switch mode {
	case "own", "format":
		var envs []*Env
		for i := 0; i < n; i++ {
			envs = append(envs, env(t))
		}
		if mode == "format" {
			wg.Add(1)
			scope := env(t).scope
			go func() {
				defer wg.Done()
				vsched.SetGroup(9)
				for i := 0; i < 2; i++ {
					put("printed during an evaluation", "format", c20Format(scope, stmts))
					put("outlined during an evaluation", "outline", c20Outline(stmts))
				}
			}()
		}
		for i := 0; i < n; i++ {
			wg.Add(1)
			e := envs[i]
			go func() {
				defer wg.Done()
				vsched.SetGroup(i + 1)
				eval("evaluated at once", "rows", e.scope, stmts)
			}()
		}
		wg.Wait()
		vsched.Quiesce()
		for _, e := range envs {
			put("evaluated at once", "effects", c20Effects(e))
		}
	case "copies", "all copies":
		e := env(t)
		from, kind := 0, "rows"
		if mode == "copies" {
			from, kind = len(stmts)-1, "last"
			for _, s := range stmts[:from] {
				collect(bg, e.scope, s)
			}
			vsched.Quiesce()
		}
		for i := 0; i < n; i++ {
			wg.Add(1)
			scope := isolate(e.scope.Copy())
			go func() {
				defer wg.Done()
				vsched.SetGroup(i + 1)
				eval("evaluated at once in "+mode, kind, scope, stmts[from:])
			}()
		}
		wg.Wait()
		eval("evaluated again after those in "+mode, kind, isolate(e.scope.Copy()), stmts[from:])
	}
	e := env(t)
	eval("evaluated again", "rows", e.scope, stmts)
	put("printed afterwards", "format", c20Format(e.scope, stmts))
	put("outlined afterwards", "outline", c20Outline(stmts))
	if vsched.Quiesce() > 0 {
		t.Fail("leak", "%s: %s", text, vsched.Describe())
		return
	}
	t.data = got
	for _, g := range got {
		t.Sig("%s %s", g.kind, strings.Join(g.value, "\n"))
	}
	sort.Strings(t.sigs)
}

func c20Same(text string, env func(t *T) *Env) func(t, base *T) {
	return func(t, base *T) {
		q := text
		if q == "" {
			q = t.Case[strings.Index(t.Case, ": ")+2:]
		}
		got, _ := t.data.([]c20Got)
		want := c20Expected(q, env)
		for _, g := range got {
			var w []string
			switch g.kind {
			case "rows":
				w = want.rows
			case "last":
				w = want.rows[len(want.rows)-1:]
			case "effects":
				if c19Early(q) != 0 {
					continue
				}
				w = []string{want.effects}
			case "format":
				w = []string{want.format}
			case "outline":
				w = []string{want.outline}
			}
			expect(t, g.kind, q+" "+g.what, strings.Join(g.value, "\n"), strings.Join(w, "\n"))
		}
	}
}

func init() {
	modes := []string{"format", "copies", "all copies"}
	all := func(y func(string) bool) bool {
		for _, q := range c20Queries {
			if !y(c18Text(q, 2, 1)) {
				return false
			}
		}
		return true
	}
	register(&Prop{
		ID:    "C20",
		Level: "model_checking",
		Rule:  "a parsed statement that is evaluated by several goroutines at once, printed or outlined meanwhile and evaluated again gives each evaluation what it gives alone, without data races",
		Suites: []Suite{
			{
				Name: "statements", Policies: 4, Same: c20Same("", poolEnv),
				Bound: "the statements of the pool evaluated twice at once in own scopes and in copies of one, and printed meanwhile, under 4 base schedules",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 0
					poolStmts(tier, func(text string) bool {
						n++
						if _, err := vfilter.MultiParse(text); err != nil {
							return true
						}
						if strings.Contains(text, "workers=2") || tier == Quick && n%37 != 0 {
							return true
						}
						for _, m := range []string{"format", "all copies"} {
							if !y(Case{m + ": " + text, func(t *T) { c20Run(t, text, m, 2, poolEnv) }}) {
								return false
							}
						}
						return true
					})
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			for _, text := range c20Lambdas {
				for _, shared := range []bool{false, true} {
					res = append(res, Scenario{
						Name: fmt.Sprintf("lambda (shared scope %v): %s", shared, text), Quick: 1, Thorough: 2, Policies: 4, MaxSteps: 40000, Groups: true, RaceBase: true,
						Body: func(t *T) { c20Lambda(t, text, shared) },
					})
				}
			}
			for _, m := range modes {
				all(func(text string) bool {
					if (m == "copies") != strings.HasPrefix(text, "LET") && m != "format" {
						return true
					}
					res = append(res, Scenario{
						Name: m + ": " + text, Quick: 1, Thorough: 2, Policies: 4, MaxSteps: 40000, Groups: true, RaceBase: true,
						Same: c20Same(text, c20Env),
						Body: func(t *T) { c20Run(t, text, m, 2, c20Env) },
					})
					return true
				})
			}
			return res
		},
	})
}

// Parsed lambdas are shared as statements are (and nothing prints them before
// they are evaluated).
var c20Lambdas = []string{
	"x => 1", "x => x + 1 + 2.5", "x => 0x10 - -3", "x => 'a' + \"b\"", "x => '''raw'''", "x => TRUE AND NOT FALSE OR NULL", "x => -x * 2 / 4", "x => x IN (1, 2) AND x =~ '1'",
	"x => fx(v=x, n='q')", "x => dict(a=x, b=[1, x])", "x => (x, (1, 2))", "x => D.k + D['b'] + L[0]", "x => if(condition=x, then=3, else=fx(v=4))", "x => get(item=D, member='k')", "x => fx(v={ SELECT i + 1 AS j, x FROM S })", "x => len(list={ SELECT i FROM R })",
	"x, y => x + y + 1", "x => nosuch", "x => nosuchf(a=1)", "x => D.nosuch.a", "x => count()", "x => format(format='%v %v', args=[x, 1])", "x => x < 3 AND x >= 1.0 AND x != 'a'", "x => timestamp(epoch=x)",
}

func c20Lambda(t *T, text string, shared bool) {
	l, err := vfilter.ParseLambda(c18Text(text, 2, 1))
	if err != nil {
		t.Fail("parse", "%s: %v", text, err)
		return
	}
	call := func(s types.Scope) string {
		r := l.Reduce(bg, s, []types.Any{int64(1), int64(5)})
		if q, ok := r.(types.StoredQuery); ok {
			var rows []string
			for row := range q.Eval(bg, s) {
				rows = append(rows, show(rowDict(bg, s, row)))
			}
			return strings.Join(rows, ",")
		}
		return show(lazyless(bg, s, r))
	}
	const n = 2
	var scopes [n]types.Scope
	e := c20Env(t)
	for i := range scopes {
		if shared {
			scopes[i] = e.scope.Copy()
			if strings.Contains(text, "count()") {
				scopes[i].SetAggregatorCtx(nil)
			}
		} else {
			scopes[i] = c20Env(t).scope
		}
	}
	var got [n]string
	var wg sync.WaitGroup
	for i := range scopes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			vsched.SetGroup(i + 1)
			got[i] = call(scopes[i])
		}()
	}
	wg.Wait()
	l, _ = vfilter.ParseLambda(c18Text(text, 2, 1))
	want := call(c20Env(t).scope)
	for i := range got {
		expect(t, "lambda", text+" evaluated at once", got[i], want)
	}
	if vsched.Quiesce() > 0 {
		t.Fail("leak", "%s: %s", text, vsched.Describe())
	}
	t.Sig("%s", want)
}
