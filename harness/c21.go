package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// Rows of the row query; the scope of the foreach has x=50 and y=60.
var c21Shapes = []*ordereddict.Dict{
	D("x", int64(0)), D("x", int64(1)), D("x", int64(2), "y", int64(7)), D("y", int64(8)),
}

type c21Query struct {
	text string // "" passes the rows through
	// The rows for one row, in order if ordered.
	rows    func(r *ordereddict.Dict) []string
	ordered bool
	effects int // calls of fx with name e for each row
}

func c21XY(r *ordereddict.Dict) (x, y int64) {
	x, y = 50, 60
	if v, ok := r.Get("x"); ok {
		x = v.(int64)
	}
	if v, ok := r.Get("y"); ok {
		y = v.(int64)
	}
	return
}

func c21N(n int, where func(x, i int64) bool) func(r *ordereddict.Dict) []string {
	return func(r *ordereddict.Dict) (res []string) {
		x, y := c21XY(r)
		for i := int64(0); i < int64(n); i++ {
			if where(x, i) {
				res = append(res, show(D("x", x, "y", y, "i", i)))
			}
		}
		return
	}
}

var c21Queries = []c21Query{
	{"", func(r *ordereddict.Dict) []string { return []string{show(r)} }, true, 0},
	{"{ SELECT x, y, 0 AS i FROM scope() }", c21N(1, func(x, i int64) bool { return true }), true, 0},
	{"{ SELECT x, y, i FROM gen(n=2, name='Q') }", c21N(2, func(x, i int64) bool { return true }), true, 0},
	{"{ SELECT x, y, i FROM gen(n=3, name='Q') WHERE i < x }", c21N(3, func(x, i int64) bool { return i < x }), true, 0},
	{"{ SELECT x, fx(v=y, n='e') AS y, 0 AS i FROM scope() }", c21N(1, func(x, i int64) bool { return true }), true, 1},
	{"{ SELECT x, y, i FROM foreach(row={ SELECT i FROM gen(n=2, name='P') }, query={ SELECT x, y, i FROM scope() }, workers=2) }", c21N(2, func(x, i int64) bool { return true }), false, 0},
	{"QQ", c21N(2, func(x, i int64) bool { return true }), true, 0},
	{"{ SELECT x, y, i FROM gen(n=3, name='Q') LIMIT 1 }", c21N(1, func(x, i int64) bool { return true }), true, 0},
	{"{ SELECT x, y, 0 AS i FROM gen(n=2, name='Q') GROUP BY x }", c21N(1, func(x, i int64) bool { return true }), true, 0},
	{"{ SELECT x, y, i FROM gen(n=2, name='Q') ORDER BY i DESC }", func(r *ordereddict.Dict) []string {
		l := c21N(2, func(x, i int64) bool { return true })(r)
		return []string{l[1], l[0]}
	}, true, 0},
	{"{ SELECT * FROM QP(p=x, q=y) }", c21N(2, func(x, i int64) bool { return true }), true, 0},
}

// How foreach gets its rows.
var c21Sources = []string{
	"{ SELECT * FROM src() }", "LZ", "MAT", "LIST", "{ SELECT i AS k, r FROM nest() }, column='r'", "{ SELECT * FROM src() WHERE 1 ORDER BY nosuch }",
}

func c21Env(t *T, table []*ordereddict.Dict) *Env {
	e := newEnv(t)
	e.scope.AppendPlugins(
		genericList("src", func() []types.Row { return copyTable(table) }),
		genericList("nest", func() []types.Row {
			var r []types.Row
			for i, x := range copyTable(table) {
				r = append(r, D("i", i, "r", x))
			}
			return r
		}),
		genericList("twice", func() []types.Row { return append(copyTable(table), copyTable(table)...) }),
	)
	e.set("x", int64(50)).set("y", int64(60))
	var l []any
	for _, x := range copyTable(table) {
		l = append(l, x)
	}
	if l == nil {
		l = []any{}
	}
	e.set("LIST", l)
	e.query("LET LZ = SELECT * FROM src() LET MAT <= SELECT * FROM src() LET QQ = SELECT x, y, i FROM gen(n=2, name='Q') LET QP(p, q) = SELECT p AS x, q AS y, i FROM gen(n=2, name='Q')")
	e.takeTrace()
	return e
}

func c21Text(src, q, opts string) string {
	s := "SELECT * FROM foreach(row=" + src
	if q != "" {
		s += ", query=" + q
	}
	return s + opts + ")"
}

func c21Want(table []*ordereddict.Dict, q *c21Query) (res []string) {
	for _, r := range table {
		res = append(res, q.rows(r)...)
	}
	return
}

func c21Workers(opts string) int {
	if strings.Contains(opts, "async") {
		return 100
	}
	n := 1
	if i := strings.Index(opts, "workers="); i >= 0 {
		fmt.Sscanf(opts[i+8:], "%d", &n)
	}
	return max(n, 1)
}

// subset says whether got has nothing that want has not.
func subset(got, want []string) bool {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, g := range got {
		n[g]--
		if n[g] < 0 {
			return false
		}
	}
	return true
}

// c21Check compares the rows of a foreach; limit < 0: all of them; partial: it
// was cancelled.
func c21Check(t *T, e *Env, what string, got []string, table []*ordereddict.Dict, q *c21Query, workers, limit int, partial bool) {
	want := c21Want(table, q)
	ordered := workers == 1 && q.ordered
	n := len(want)
	if limit >= 0 {
		n = min(n, limit)
	}
	switch {
	case !partial && len(got) != n:
		t.Fail("rows", "%s: %d rows instead of %d: %v want %v", what, len(got), n, got, want)
	case ordered && len(got) <= len(want) && strings.Join(got, ";") != strings.Join(want[:len(got)], ";"):
		t.Fail("order", "%s: %v want %v", what, got, want[:len(got)])
	case !subset(got, want):
		t.Fail("rows", "%s: %v want %v", what, got, want)
	}
	// The rows for one row keep their order.
	if q.ordered && !ordered && !partial && limit < 0 {
		for _, r := range table {
			same := 0
			for _, r2 := range table {
				if show(r) == show(r2) {
					same++
				}
			}
			if same > 1 {
				continue
			}
			l := q.rows(r)
			k := 0
			for _, g := range got {
				if k < len(l) && g == l[k] {
					k++
				}
			}
			if k < len(l) {
				t.Fail("order", "%s: the rows for %s are not in order: %v", what, show(r), got)
			}
		}
	}
	if vsched.Quiesce() > 0 {
		t.Fail("leak", "%s: %s", what, vsched.Describe())
	}
	e.mu.Lock()
	live, trace := e.live, append([]string(nil), e.trace...)
	e.mu.Unlock()
	if live != 0 {
		t.Fail("live", "%s: %d sources are still running", what, live)
	}
	if q.effects > 0 && !partial && limit < 0 {
		calls := 0
		var w, g []string
		for _, r := range table {
			_, y := c21XY(r)
			w = append(w, fmt.Sprintf("e(%d)", y))
		}
		for _, s := range trace {
			if strings.HasPrefix(s, "e(") {
				calls++
				g = append(g, s)
			}
		}
		sort.Strings(w)
		sort.Strings(g)
		expect(t, "effects", what+": calls", join(g), join(w))
	}
	c17Opened(t, e)
	if !partial && limit < 0 && !strings.Contains(q.text, "LIMIT") {
		for _, l := range e.errorLogs() {
			t.Fail("log", "%s: %s", what, l)
		}
	}
	t.Sig("%d %v", len(got), got)
}

func c21Rows(ctx context.Context, e *Env, text string, stop int) []string {
	var got []string
	stmts, err := vfilter.MultiParse(text)
	if err != nil {
		e.t.Fail("parse", "%s: %v", text, err)
		return nil
	}
	for row := range stmts[0].Eval(ctx, e.scope) {
		got = append(got, show(rowDict(bg, e.scope, row)))
		if len(got) == stop {
			break
		}
	}
	return got
}

func init() {
	opts := []string{"", ", workers=0", ", workers=-2", ", workers=1", ", workers=2", ", workers=3", ", workers=4", ", async=FALSE", ", async=TRUE, workers=2", ", async=FALSE, workers=3"}
	register(&Prop{
		ID:    "C21",
		Level: "model_checking",
		Rule:  "foreach emits, for every number of workers and every schedule, the rows of the query for each row once, with only its columns bound; in order with one worker; whatever ends it early ends all workers",
		Suites: []Suite{
			{
				Name: "rows", Policies: 4,
				Bound: "all tables of 0..3 (thorough 4) rows of 4 shapes x 11 queries x 10 combinations of options (of 3 rows: from one of 6 kinds of sources) under 4 base schedules",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 3
					if tier == Thorough {
						n = 4
					}
					k := 0
					for _, table := range tables(c21Shapes, 0, n) {
						for i := range c21Queries {
							q := &c21Queries[i]
							for _, o := range opts {
								for j, src := range c21Sources {
									k++
									if len(table) > 2 && (k/7%len(c21Sources) != j || tier == Quick && k%11 != 0) || len(table) > 1 && j != 0 && tier == Quick && k%11 != 0 {
										continue
									}
									text := c21Text(src, q.text, o)
									if !y(Case{fmt.Sprintf("%s over %v", text, table), func(t *T) {
										e := c21Env(t, table)
										got := c21Rows(bg, e, text, -1)
										c21Check(t, e, text, got, table, q, c21Workers(o), -1, false)
									}}) {
										return
									}
								}
							}
						}
					}
				}),
			},
			{
				Name: "early end", Policies: 4,
				Bound: "tables of 2..3 rows x 11 queries x 4 numbers of workers, LIMIT 0..3 and consumers that stop after 1..3 rows",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for ti, table := range tables(c21Shapes[1:], 2, 3) {
						if tier == Quick && ti%7 != 0 {
							continue
						}
						for i := range c21Queries {
							q := &c21Queries[i]
							for _, o := range []string{"", ", workers=2", ", workers=3", ", async=TRUE"} {
								if o == ", async=TRUE" && (i%4 != 0 || len(table) > 2) {
									continue
								}
								for lim := 0; lim < 4; lim++ {
									text := c21Text(c21Sources[0], q.text, o)
									if !y(Case{fmt.Sprintf("%s LIMIT %d over %v", text, lim, table), func(t *T) {
										e := c21Env(t, table)
										got := c21Rows(bg, e, text+fmt.Sprintf(" LIMIT %d", lim), -1)
										c21Check(t, e, text, got, table, q, c21Workers(o), lim, false)
									}}) {
										return
									}
									if lim == 0 {
										continue
									}
									if !y(Case{fmt.Sprintf("%d rows of %s over %v", lim, text, table), func(t *T) {
										e := c21Env(t, table)
										ctx, cancel := context.WithCancel(bg)
										got := c21Rows(ctx, e, text, lim)
										cancel()
										c21Check(t, e, text, got, table, q, c21Workers(o), lim, true)
									}}) {
										return
									}
								}
							}
						}
					}
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			sh := c21Shapes
			for _, table := range [][]*ordereddict.Dict{{sh[1], sh[3]}, {sh[0], sh[2], sh[3]}, {sh[1]}, {}} {
				for i := range c21Queries {
					q := &c21Queries[i]
					for _, o := range []string{", workers=1", ", workers=2", ", workers=3"} {
						if len(table) < 2 && i != 2 || len(table) > 2 && o == ", workers=3" {
							continue
						}
						text := c21Text(c21Sources[0], q.text, o)
						weight := 1.0
						if i == 5 {
							weight = 4
						}
						for mode := 0; mode < 3; mode++ {
							if mode > 0 && (i > 5 || len(table) > 2) {
								continue
							}
							pol := 4
							if mode > 0 || len(table) > 2 {
								pol = 2
							}
							name := []string{"all", "limit", "cancel"}[mode]
							res = append(res, Scenario{
								Name: fmt.Sprintf("%s %s over %v", name, text, table), Quick: 1, Thorough: 2, Policies: pol, RaceBase: true,
								MaxSteps: 20000, EarlyTimers: mode == 2, Weight: weight,
								Body: func(t *T) {
									e := c21Env(t, table)
									switch mode {
									case 0:
										c21Check(t, e, text, c21Rows(bg, e, text, -1), table, q, c21Workers(o), -1, false)
									case 1:
										c21Check(t, e, text, c21Rows(bg, e, text+" LIMIT 1", -1), table, q, c21Workers(o), 1, false)
									case 2:
										ctx, cancel := context.WithTimeout(bg, time.Second)
										defer cancel()
										c21Check(t, e, text, c21Rows(ctx, e, text, -1), table, q, c21Workers(o), -1, ctx.Err() != nil)
									}
								},
							})
						}
					}
				}
			}
			return res
		},
	})
}
