package main

import (
	"fmt"
	"strings"

	"REPO/types"
)

type limQ struct {
	setup, text string // text without LIMIT
	endless     bool
}

func c03Queries() []limQ {
	return []limQ{
		{"", "SELECT * FROM gen(n=5, name='g')", false},
		{"", "SELECT i + 1 AS j, fx(v=i, n='e') AS e FROM gen(n=4, name='g')", false},
		{"", "SELECT i FROM gen(n=6, name='g') WHERE i != 1 AND i < 5", false},
		{"", "SELECT i FROM gen(n=3, name='g') WHERE FALSE", false},
		{"", "SELECT * FROM T", false},
		{"", "SELECT * FROM tab()", false},
		{"", "SELECT i / 2 AS h, count() AS c FROM gen(n=5) GROUP BY i < 2", false},
		{"", "SELECT i FROM gen(n=5) GROUP BY i ORDER BY i DESC", false},
		{"", "SELECT i FROM gen(n=5) ORDER BY i DESC", false},
		{"LET S = SELECT * FROM gen(n=5, name='g')", "SELECT * FROM S", false},
		{"LET S <= SELECT * FROM gen(n=5, name='g')", "SELECT * FROM S", false},
		{"LET S(n) = SELECT * FROM gen(n=n, name='g')", "SELECT * FROM S(n=4)", false},
		{"", "SELECT * FROM foreach(row={SELECT * FROM gen(n=3, name='a')}, query={SELECT i + 10 AS x FROM gen(n=2, name='b')})", false},
		{"", "SELECT * FROM foreach(row={SELECT * FROM gen(n=5, name='a')})", false},
		{"", "SELECT * FROM chain(a={SELECT * FROM gen(n=2, name='a')}, b={SELECT * FROM gen(n=3, name='b')})", false},
		{"", "SELECT * FROM if(condition=TRUE, then={SELECT * FROM gen(n=4, name='a')})", false},
		{"", "SELECT * FROM range(start=1, end=5)", false},
		{"", "SELECT *, count() AS c FROM gen(n=4)", false},
		{"LET S = SELECT * FROM gen(n=6, name='g') LIMIT 4", "SELECT * FROM S", false},
		{"LET S(x) = SELECT x AS y FROM gen(n=3)", "SELECT i, { SELECT y FROM S(x=i) LIMIT 2 } AS z FROM gen(n=3)", false},

		{"", "SELECT * FROM gen(n=-1, name='g')", true},
		{"", "SELECT i FROM gen(n=-1, name='g') WHERE i > 2", true},
		{"LET S = SELECT * FROM gen(n=-1, name='g')", "SELECT * FROM S", true},
		{"LET S(x) = SELECT i + x AS j FROM gen(n=-1, name='g')", "SELECT * FROM S(x=2)", true},
		{"", "SELECT * FROM foreach(row={SELECT * FROM gen(n=-1, name='g')}, query={SELECT i FROM scope()})", true},
		{"", "SELECT * FROM foreach(row={SELECT * FROM gen(n=1)}, query={SELECT * FROM gen(n=-1, name='g')})", true},
		{"", "SELECT * FROM foreach(row={SELECT * FROM gen(n=-1, name='g')})", true},
		{"", "SELECT * FROM chain(a={SELECT * FROM gen(n=2)}, b={SELECT * FROM gen(n=-1, name='g')})", true},
		{"", "SELECT * FROM if(condition=TRUE, then={SELECT * FROM gen(n=-1, name='g')})", true},
		{"LET S = SELECT * FROM gen(n=-1, name='g') LET U = SELECT * FROM S WHERE i", "SELECT * FROM U", true},
		{"", "SELECT * FROM flatten(query={SELECT * FROM gen(n=-1, name='g')})", true},
		{"LET S = SELECT * FROM gen(n=-1, name='g')", "SELECT i, { SELECT i AS j FROM S LIMIT 2 } AS z FROM gen(n=-1, name='g')", true},
		{"LET H = SELECT * FROM gen(n=-1, name='h')", "SELECT i FROM gen(n=-1, name='g') WHERE H", true},
	}
}

func c03Env(t *T) *Env {
	e := newEnv(t)
	tb := []*Dict{D("i", int64(3)), D("i", int64(1)), D("i", types.Null{}), D("j", int64(1))}
	e.set("T", copyTable(tb))
	tabPlugin(e, func() []types.Row { return copyTable(tb) })
	return e
}

// produced counts the rows a source produced.
func produced(trace, name string) int {
	n := 0
	for _, w := range strings.Fields(trace) {
		if strings.HasPrefix(w, name) && len(w) > len(name) && w[len(name)] >= '0' && w[len(name)] <= '9' {
			n++
		}
	}
	return n
}

// Rows the stages of a query may hold while nobody asks for more.
const c03Slack = 12

func c03Check(t *T, q limQ, n int) {
	var base []*Dict
	text := fmt.Sprintf("%s LIMIT %d", q.text, n)
	what := q.setup + " " + text
	if !q.endless {
		e := c03Env(t)
		base = e.query(q.setup + " " + q.text)
	}
	e := c03Env(t)
	if q.setup != "" {
		e.query(q.setup)
	}
	e.takeTrace()
	rows := e.query(text)
	settle(t, "limit")
	if q.endless {
		if len(rows) != n {
			t.Fail("count", "%s: %d rows", what, len(rows))
		}
	} else {
		m := n
		if m > len(base) {
			m = len(base)
		}
		expect(t, "prefix", what, showRows(rows), showRows(base[:m]))
	}
	e.mu.Lock()
	live := e.live
	e.mu.Unlock()
	if live != 0 {
		t.Fail("source", "%s: %d sources still run", what, live)
	}
	trace := e.takeTrace()
	if q.endless && !strings.Contains(q.text, "LIMIT 2 }") {
		if p := produced(trace, "g"); p > n+3+c03Slack {
			t.Fail("overrun", "%s: the source produced %d rows", what, p)
		}
	}
	if n == 0 && strings.Contains(trace, "e(") {
		t.Fail("overrun", "%s: evaluated columns: %s", what, trace)
	}
	for _, l := range e.errorLogs() {
		if !strings.HasPrefix(l, "ERROR:S") && !strings.Contains(l, "already closed") {
			t.Fail("log", "%s: logged %s", what, l)
		}
	}
	t.Sig("%s|%s", showRows(rows), trace)
	// The statement can be used again.
	if e.errorLogs() == nil && !q.endless && !strings.Contains(q.text, "count()") {
		again := e.query(text)
		expect(t, "again", what+" again", showRows(again), showRows(rows))
		settle(t, "limit again")
	}
}

func init() {
	register(&Prop{
		ID:    "C03",
		Level: "model_checking",
		Rule:  "LIMIT n gives the first n rows of the unlimited query; every source stops and every goroutine ends although nothing else cancels the query",
		Suites: []Suite{
			{
				Name: "big limits", NoRace: true,
				Bound: "all limits next to a power of two over 0..3 rows in 7 queries",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, n := range bigNumbers() {
						if !y(Case{n, func(t *T) { c03Big(t, n) }}) {
							return
						}
					}
				}),
			},
			{
				Name: "long limits", NoRace: true, Steps: 1 << 30,
				Bound: "LIMIT n of 300 rows and of endless ones in 7 queries, n = 0..34 and around 50, 64, 100, 128, 200, 256 and 300 (thorough: 0..300 and around 512, 1000 and 1024)",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 0, y, sizeLimit) }),
			},
			{
				Name:          "limits",
				Bound:         "33 query shapes over every kind of source, 13 of them endless x LIMIT 0..7 (thorough 0..20)",
				BothMapOrders: true,
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 7
					if tier == Thorough {
						max = 20
					}
					for _, q := range c03Queries() {
						for n := 0; n <= max; n++ {
							if !y(Case{fmt.Sprintf("%s %s LIMIT %d", q.setup, q.text, n), func(t *T) { c03Check(t, q, n) }}) {
								return
							}
						}
					}
				}),
			}},
		Scenarios: func() []Scenario {
			var res []Scenario
			for i, q := range c03Queries() {
				for _, n := range []int{1, 2} {
					if n == 2 && i%3 != 0 {
						continue
					}
					res = append(res, Scenario{
						Name: fmt.Sprintf("%s %s LIMIT %d", q.setup, q.text, n), Quick: 1, Thorough: 3,
						Body: func(t *T) { c03Check(t, q, n) },
					})
				}
			}
			return res
		},
	})
}
