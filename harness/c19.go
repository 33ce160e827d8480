package main

import (
	"fmt"
	"sort"
	"strings"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/types"
)

// c19Early says whether the rows behind a LIMIT, or behind the one that a truth
// value or an index needs, may or may not be evaluated (1: at the end; 2: each
// time some part of the query is evaluated).
func c19Early(text string) int {
	for _, s := range []string{"condition={", "WHERE X", "NOT X", "X AND", "OR X", "X[", "WHERE fx(v={"} {
		if strings.Contains(text, s) {
			return 2
		}
	}
	if i := strings.Index(text, "LIMIT"); i >= 0 {
		if strings.Contains(text[i:], "}") {
			return 2
		}
		return 1
	}
	return 0
}

// c19Run evaluates the statements and records their rows in order, the side
// effects of each call site in order and what was logged.
func c19Run(t *T, e *Env, text string) {
	stmts := mustParse(t, text)
	for _, s := range stmts {
		t.Sig("rows\t%s", showRows(collect(bg, e.scope, s)))
	}
	if vsched.Quiesce() > 0 {
		t.Fail("leak", "%s: %s", text, vsched.Describe())
		return
	}
	c19Effects(t, e)
}

// c19Effects: the call sites are told apart by their names.
func c19Effects(t *T, e *Env) {
	e.mu.Lock()
	defer e.mu.Unlock()
	sites := map[string][]string{}
	var names []string
	add := func(n, v string) {
		if _, ok := sites[n]; !ok {
			names = append(names, n)
		}
		sites[n] = append(sites[n], v)
	}
	for _, n := range e.trace {
		if strings.HasPrefix(n, "open-") || strings.HasPrefix(n, "cancelled-") {
			continue
		}
		i := strings.IndexAny(n, "(0123456789")
		if i < 0 {
			i = len(n)
		}
		add(n[:i], n)
	}
	e.lmu.Lock()
	defer e.lmu.Unlock()
	for _, l := range e.logs {
		if i := strings.Index(l, "Current Scope"); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, "EXPLAIN") || strings.HasPrefix(l, "DEBUG:") {
			continue
		}
		k := l
		if len(k) > 30 {
			k = k[:30]
		}
		add("log "+k, l)
	}
	sort.Strings(names)
	for _, n := range names {
		t.Sig("site\t%s\t%s", n, strings.Join(sites[n], "\n"))
	}
}

// c19Same compares an execution with another one.
func c19Same(early int) func(t, base *T) {
	return func(t, base *T) {
		sites := map[string]string{}
		var want, got []string
		for _, s := range base.sigs {
			if strings.HasPrefix(s, "rows\t") {
				want = append(want, s[5:])
			} else if p := strings.SplitN(s, "\t", 3); len(p) == 3 {
				sites[p[1]] = p[2]
			}
		}
		for _, s := range t.sigs {
			if strings.HasPrefix(s, "rows\t") {
				got = append(got, s[5:])
				continue
			}
			p := strings.SplitN(s, "\t", 3)
			if len(p) < 3 {
				continue
			}
			w, ok := sites[p[1]]
			delete(sites, p[1])
			if early == 2 {
			} else if early == 1 {
				// One is a beginning of the other.
				if !strings.HasPrefix(p[2]+"\n", w+"\n") && !strings.HasPrefix(w+"\n", p[2]+"\n") && ok {
					t.Fail("effects", "%s: the calls differ: %q or %q", t.Case, trunc(w, 500), trunc(p[2], 500))
				}
			} else if !ok || w != p[2] {
				t.Fail("effects", "%s: the calls differ: %q or %q", t.Case, trunc(w, 500), trunc(p[2], 500))
			}
		}
		if early == 0 {
			for n, w := range sites {
				t.Fail("effects", "%s: %s: no calls or %q", t.Case, n, trunc(w, 500))
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Fail("rows", "%s: the rows differ:\n  %s\n  %s", t.Case, trunc(strings.Join(want, " | "), 1200), trunc(strings.Join(got, " | "), 1200))
		}
	}
}

// Queries with call sites to tell apart.
var c19Queries = []string{
	"SELECT fx(v=i, n='a') AS x, fx(v=i + 1, n='b') AS y FROM S WHERE fx(v=i != 1, n='w')",
	"SELECT fx(v=i, n='a') AS x FROM S WHERE x ORDER BY x DESC",
	"SELECT fx(v=i / 2, n='a') AS x, i FROM S ORDER BY x",
	"SELECT fx(v=0, n='a') AS x, i FROM S ORDER BY x",
	"SELECT fx(v=0, n='a') AS x, i FROM S ORDER BY x LIMIT 2",
	"SELECT i = 1 AS g, count() AS c, enumerate(items=fx(v=i, n='e')) AS e FROM S GROUP BY i = 1",
	"SELECT i = 1 AS g, sum(item=fx(v=i, n='e')) AS e FROM S WHERE i GROUP BY g ORDER BY e",
	"SELECT i, count() AS c FROM S GROUP BY fx(v=-i, n='g')",
	"SELECT i, min(item=i) AS a, max(item=i) AS b FROM S GROUP BY 1",
	"SELECT count() AS c, i FROM S",
	"SELECT count() AS c, i FROM S WHERE c < 3 LIMIT 1",
	"SELECT fx(v=i, n='a') AS x FROM S LIMIT 2",
	"SELECT * FROM foreach(row={ SELECT fx(v=i, n='a') AS x FROM S }, query={ SELECT x, fx(v=i, n='b') AS y FROM R })",
	"SELECT * FROM foreach(row={ SELECT i AS x FROM S WHERE fx(v=i, n='a') }, query={ SELECT x, fx(v=i, n='b') AS y FROM R WHERE i = x - 1 })",
	"SELECT * FROM foreach(row={ SELECT i AS x FROM S }, query={ SELECT x, count() AS c FROM R }, workers=1)",
	"SELECT * FROM foreach(row={ SELECT i AS x FROM S }, query={ SELECT * FROM foreach(row={ SELECT i AS y FROM R }, query={ SELECT fx(v=x + y, n='z') AS z FROM scope() }) })",
	"SELECT * FROM foreach(row={ SELECT i AS x FROM S }) LIMIT 2",
	"SELECT * FROM foreach(row=[dict(x=1), dict(x=2)], query={ SELECT x, i FROM R }) ORDER BY i",
	"SELECT * FROM chain(b={ SELECT fx(v=i, n='a') AS x FROM S }, a={ SELECT fx(v=i, n='b') AS x FROM R }, c={ SELECT fx(v=7, n='c') AS x FROM scope() })",
	"SELECT * FROM chain(b={ SELECT i FROM S LIMIT 1 }, a={ SELECT i AS j FROM R })",
	"SELECT * FROM flatten(query={ SELECT i, { SELECT i AS k FROM R } AS l FROM S })",
	"SELECT * FROM flatten(query={ SELECT (1, 2) AS a, (3, 4) AS b, i FROM R })",
	"SELECT * FROM if(condition=fx(v=1, n='c'), then={ SELECT fx(v=i, n='a') AS x FROM S }, else={ SELECT fx(v=1, n='b') FROM R })",
	"SELECT if(condition=fx(v=i = 1, n='c'), then=fx(v=2, n='a'), else=fx(v=3, n='b')) AS x FROM S",
	"SELECT dict(b=fx(v=i, n='b'), a=fx(v=i, n='a'), c={ SELECT i AS z FROM R }) AS d FROM S",
	"SELECT *, fx(v=i, n='a') AS b FROM S",
	"SELECT { SELECT i AS j, fx(v=i, n='in') AS k FROM R } AS s, fx(v=i, n='out') AS t FROM S",
	"SELECT { SELECT count() AS j FROM R } AS s, count() AS t FROM S",
	"LET X = SELECT fx(v=i, n='x') AS x, i FROM S SELECT X AS a, X.i AS b, fx(v=1, n='y') AS c FROM R",
	"LET X <= SELECT fx(v=i, n='x') AS x, i FROM S SELECT X AS a, X.x AS b, fx(v=i, n='y') AS c FROM R",
	"LET X(p) = SELECT fx(v=i + p, n='x') AS x FROM R SELECT X(p=i) AS a FROM S",
	"LET X(p=fx(v=1, n='dp'), q=fx(v=2, n='dq'), r=fx(v=3, n='dr')) = dict(r=r, q=q, p=p) SELECT X() AS a, X(q=i) AS b FROM S",
	"LET X(p, q) = fx(v=p + q, n='x') SELECT X(q=fx(v=i, n='aq'), p=fx(v=i, n='ap')) AS a FROM S",
	"LET X = fx(v=i, n='x') SELECT X, X + X AS b FROM S",
	"LET X = SELECT i AS k FROM R SELECT i IN X.k AS m, X[0] AS n, X[1:] AS o, X + X AS p FROM S",
	"LET X = SELECT i FROM R WHERE i > 7 SELECT i FROM S WHERE NOT X",
	"LET X = SELECT i FROM R SELECT i, count() AS c FROM S GROUP BY X",
	"LET Y = SELECT count() AS c FROM S LET X = SELECT * FROM Y SELECT * FROM chain(a={ SELECT * FROM X }, b={ SELECT * FROM X })",
	"SELECT nosuch(v=i) AS x, nosuch2 AS y, i.k AS z FROM S",
	"SELECT * FROM nosuch(v=1)",
	"SELECT * FROM showargs(z=fx(v=1, n='z'), y=fx(v=2, n='y'), x={ SELECT * FROM R })",
	"SELECT get(item=dict(a=dict(b=fx(v=i, n='x'))), member='a.b') AS g, len(list=(1, i)) AS l, format(format='%v-%v', args=[fx(v=i, n='f'), 2]) AS f FROM S",
	"LET X = SELECT i FROM R LET Y(p) = SELECT i + p AS i FROM R SELECT format(format='%v %v %s %s', args=[X, Y(p=1), (X, 2), dict(a=Y(p=2))]) AS f, format(format='%v', args=if(condition=1, then={ SELECT i FROM R })) AS g FROM scope()",
	"LET X = SELECT i FROM R LET Y(p) = SELECT i + p AS i FROM R SELECT count() AS c, i FROM S GROUP BY Y(p=i), X, (X, dict(a=X, b=Y(p=1)))",
	"EXPLAIN SELECT fx(v=i, n='x') AS x FROM S WHERE i > 0 ORDER BY x",
	"SELECT * FROM range(start=0, end=3)",
	"SELECT *, D.k AS k, vv FROM vals2() WHERE D",
}

func c19Env(t *T) *Env {
	e := newEnv(t)
	e.set("D", map[string]any{"k": int64(1), "b": int64(2), "c": []int{1}})
	e.scope.AppendPlugins(genericList("vals2", func() []types.Row {
		return []types.Row{
			D("a", map[string]int{"x": 1, "y": 2, "z": 3}, "vv", 1),
			map[string]any{"q": 1, "r": "x", "s": nil, "vv": 2},
			struct {
				A  int
				Vv string
			}{1, "x"},
		}
	}))
	return e
}

func init() {
	// The order of rows with several workers is not determined.
	par := func(s string) bool { return strings.Contains(s, "workers=2") || strings.Contains(s, "async") }
	all := func(n, m int, y func(string) bool) bool {
		for _, q := range c19Queries {
			if !y(c18Text(q, n, m)) {
				return false
			}
		}
		for _, q := range c18Queries {
			if !par(q.text) && !y(c18Text(q.text, n, m)) {
				return false
			}
		}
		return true
	}
	register(&Prop{
		ID:    "C19",
		Level: "model_checking",
		Rule:  "every execution of a query, whatever the schedule and the iteration order of maps, yields the same rows in the same order with the same columns, evaluates each call site the same times in the same order, and logs the same",
		Suites: []Suite{
			{
				Name: "statements", BothMapOrders: true, Policies: 4, Same: c19Same(2),
				Bound: "the statements of the pool under 4 base schedules and 2 orders of map iteration",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 0
					poolStmts(tier, func(text string) bool {
						n++
						if _, err := vfilter.MultiParse(text); err != nil {
							return true
						}
						if par(text) || tier == Quick && n%7 != 0 && strings.HasPrefix(text, "SELECT ") {
							return true
						}
						return y(Case{text, func(t *T) { c19Run(t, poolEnv(t), text) }})
					})
				}),
			},
			{
				Name: "side effects", BothMapOrders: true, Policies: 4, Same: func(t, base *T) { c19Same(c19Early(t.Case))(t, base) },
				Bound: "130 queries over sources of three and two rows under 4 base schedules and 2 orders of map iteration, twice in one process",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					all(3, 2, func(text string) bool {
						return y(Case{text, func(t *T) {
							c19Run(t, c19Env(t), text)
							first := strings.Join(t.sigs, "\n")
							u := &T{Case: t.Case}
							c19Run(u, c19Env(u), text)
							if c19Early(text) == 0 {
								expect(t, "again", text+" evaluated on an equal scope", strings.Join(u.sigs, "\n"), first)
							}
						}})
					})
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			all(2, 2, func(text string) bool {
				res = append(res, Scenario{
					Name: text, Quick: 1, Thorough: 2, Policies: 4, MaxSteps: 20000,
					Same: func(t, base *T) { t.Case = text; c19Same(c19Early(text))(t, base) },
					Body: func(t *T) { c19Run(t, c19Env(t), text) },
				})
				return true
			})
			return res
		},
	})
}

var _ = fmt.Sprint
