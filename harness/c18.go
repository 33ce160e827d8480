package main

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/types"
)

// Queries in which the sources S and R stand for gen(n=.., name=..); each is
// run over endless and finite sources.
type c18Query struct {
	text string
	// With an endless source it emits rows for ever.
	stream bool
}

var c18Queries = []c18Query{
	{"SELECT * FROM S", true},
	{"SELECT i + 1 AS a, fx(v=i) AS b FROM S WHERE i >= 0", true},
	{"SELECT * FROM S WHERE i < 0", false},
	{"SELECT * FROM S LIMIT 2", false},
	{"SELECT * FROM S WHERE i < 0 LIMIT 2", false},
	{"SELECT * FROM S ORDER BY i DESC", false},
	{"SELECT * FROM S ORDER BY i LIMIT 1", false},
	{"SELECT count() AS c FROM S GROUP BY 1", false},
	{"SELECT count() AS c FROM S WHERE i < 0 GROUP BY i", false},
	{"SELECT i, count() AS c FROM S GROUP BY i ORDER BY c DESC LIMIT 1", false},
	{"EXPLAIN SELECT * FROM S", true},
	{"SELECT * FROM foreach(row={ SELECT * FROM S })", true},
	{"SELECT * FROM foreach(row={ SELECT * FROM S }, query={ SELECT i FROM scope() })", true},
	{"SELECT * FROM foreach(row={ SELECT * FROM S }, query={ SELECT * FROM R })", true},
	{"SELECT * FROM foreach(row={ SELECT * FROM S }, query={ SELECT * FROM R }, workers=2)", true},
	{"SELECT * FROM foreach(row={ SELECT * FROM S }, query={ SELECT * FROM R WHERE i < 0 }, workers=2)", false},
	{"SELECT * FROM foreach(row={ SELECT * FROM S }, query={ SELECT * FROM scope() WHERE 0 }, async=TRUE) LIMIT 1", false},
	{"SELECT * FROM chain(a={ SELECT * FROM S }, b={ SELECT * FROM R })", true},
	{"SELECT * FROM chain(a={ SELECT * FROM S WHERE i < 0 }, b={ SELECT * FROM R })", false},
	{"SELECT * FROM if(condition=1, then={ SELECT * FROM S })", true},
	{"SELECT * FROM if(condition={ SELECT * FROM S WHERE i > 1 }, then={ SELECT * FROM R })", true},
	{"SELECT * FROM flatten(query={ SELECT * FROM S })", true},
	{"SELECT * FROM flatten(query={ SELECT i, (1, 2) AS j FROM S WHERE i < 0 })", false},
	{"SELECT { SELECT * FROM S } AS c FROM scope()", false},
	{"SELECT { SELECT * FROM S LIMIT 2 } AS c FROM R", true},
	{"SELECT dict(a={ SELECT * FROM S }) AS c FROM scope()", false},
	{"LET X = SELECT * FROM S WHERE i > 1 SELECT 1 AS c FROM scope() WHERE X", false},
	{"LET X = SELECT * FROM S WHERE i < 0 SELECT 1 AS c FROM scope() WHERE X", false},
	{"LET X = SELECT * FROM R SELECT 1 AS c FROM S GROUP BY X", false},
	{"LET X = SELECT * FROM S SELECT count(items=1) AS c FROM scope() GROUP BY X", false},
	{"SELECT enumerate(items={ SELECT * FROM S }) AS c FROM scope() GROUP BY 1", false},
	{"SELECT fx(v={ SELECT * FROM S }) AS c FROM scope()", false},
	{"SELECT sq(v={ SELECT * FROM S }) AS c FROM scope()", false},
	{"SELECT get(item={ SELECT * FROM S }, field='i') AS c FROM scope()", false},
	{"SELECT len(list={ SELECT * FROM S }) AS c FROM scope()", false},
	{"SELECT if(condition={ SELECT * FROM S WHERE i < 0 }, then=1) AS c FROM scope()", false},
	{"SELECT if(condition=1, then={ SELECT * FROM S }) AS c FROM scope()", false},
	{"SELECT format(format='%v', args={ SELECT * FROM S }) AS c FROM scope()", false},
	{"SELECT encode(string={ SELECT * FROM S }, type='hex') AS c FROM scope()", false},
	{"SELECT split(string={ SELECT * FROM S }, sep=',') AS c FROM scope()", false},
	{"SELECT * FROM showargs(a={ SELECT * FROM S })", false},
	{"LET X = SELECT * FROM S SELECT * FROM X", true},
	{"LET X = SELECT * FROM S SELECT X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X.i AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X.i.a AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X[0] AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X[0:2] AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X + X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X + 1 AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT 1 + X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X - X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X * 2 AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X / 2 AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X = X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X = 1 AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X < X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT 7 IN X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT 7 IN X.i AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X IN (1, 2) AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT X =~ 'a' AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT 'a' =~ X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S WHERE i < 0 SELECT NOT X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S WHERE i < 0 SELECT X AND 1 AS c FROM scope()", false},
	{"LET X = SELECT * FROM S WHERE i < 0 SELECT 0 OR X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT -X AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT (X, 1) AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT dict(a=X) AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT * FROM foreach(row=X)", true},
	{"LET X = SELECT * FROM S SELECT * FROM foreach(row=X.i)", false},
	{"LET X = SELECT * FROM S SELECT * FROM foreach(row=X, query={ SELECT * FROM R WHERE i < 0 })", false},
	{"LET X(p) = SELECT * FROM S WHERE i < p SELECT * FROM X(p=0)", false},
	{"LET X(p) = SELECT * FROM S WHERE i < p SELECT * FROM X(p={ SELECT * FROM R })", false},
	{"LET X(p) = p SELECT X(p={ SELECT * FROM S }) AS c FROM scope()", false},
	{"LET X(p={ SELECT * FROM S }) = p SELECT X() AS c FROM scope()", false},
	{"LET X(p) = SELECT * FROM p SELECT * FROM X(p={ SELECT * FROM S })", false},
	{"LET X(p) = SELECT * FROM S SELECT X(p=1).i AS c FROM scope()", false},
	{"LET X(p) = SELECT * FROM S SELECT * FROM if(condition=1, then=X(p=1))", true},
	{"LET X <= SELECT * FROM S", false},
	{"LET X <= SELECT * FROM S WHERE i < 0", false},
	{"LET X <= SELECT * FROM foreach(row={ SELECT * FROM S }, query={ SELECT * FROM R }, workers=2)", false},
	{"LET X <= fx(v={ SELECT * FROM S })", false},
	{"LET X = SELECT * FROM S LET Y <= X", false},
	{"LET X = SELECT * FROM S LET Y <= X.i", false},
	{"LET X = fx(v={ SELECT * FROM S }) SELECT X AS c FROM scope()", false},
	{"SELECT * FROM scope() WHERE fx(v={ SELECT * FROM S }) ORDER BY a", false},
	{"SELECT fx(v={ SELECT * FROM S }) AS c FROM R ORDER BY c", false},
	{"SELECT i, { SELECT i AS j FROM S WHERE i < 0 } AS c FROM R ORDER BY c", false},
}

// c18All adds calls as arguments, lazy ones among them. How far a source gets
// whose reader needs one row only depends on the schedule, so that these are
// not for C19.
var c18All = append(append([]c18Query(nil), c18Queries...), []c18Query{
	{"SELECT if(condition=1, then=fx(v={ SELECT * FROM S })) AS c FROM scope()", false},
	{"SELECT if(condition=0, then=1, else=fx(v={ SELECT * FROM S })) AS c FROM scope()", false},
	{"SELECT if(condition=fx(v={ SELECT * FROM S }), then=1) AS c FROM scope()", false},
	{"SELECT * FROM if(condition=fx(v={ SELECT * FROM S }), then={ SELECT * FROM R })", false},
	{"SELECT * FROM if(condition=1, then=fx(v={ SELECT * FROM S }))", false},
	{"SELECT * FROM if(condition=0, else=fx(v={ SELECT * FROM S }))", false},
	{"SELECT * FROM foreach(row=fx(v={ SELECT * FROM S }))", false},
	{"SELECT * FROM foreach(row={ SELECT * FROM R }, query=fx(v={ SELECT * FROM S }))", false},
	{"SELECT * FROM foreach(row=fx(v={ SELECT * FROM S }), query={ SELECT * FROM R }, workers=2)", false},
	{"SELECT * FROM chain(a=fx(v={ SELECT * FROM S }), b={ SELECT * FROM R })", false},
	{"SELECT * FROM flatten(query=fx(v={ SELECT * FROM S }))", false},
	{"SELECT count(items=fx(v={ SELECT * FROM S })) AS c FROM scope() GROUP BY 1", false},
	{"SELECT enumerate(items=fx(v={ SELECT * FROM S })) AS c FROM scope() GROUP BY 1", false},
	{"SELECT max(item=fx(v={ SELECT * FROM S })) AS c FROM scope() GROUP BY 1", false},
	{"SELECT get(item=fx(v={ SELECT * FROM S }), member='i') AS c FROM scope()", false},
	{"SELECT dict(a=fx(v={ SELECT * FROM S })) AS c FROM scope()", false},
	{"SELECT dict(a=[fx(v={ SELECT * FROM S }), 1]) AS c FROM scope()", false},
	{"LET X(p) = if(condition=p, then=p) SELECT X(p=fx(v={ SELECT * FROM S })) AS c FROM scope()", false},
	{"LET X(p) = SELECT * FROM if(condition=p, then={ SELECT * FROM R }) SELECT * FROM X(p=fx(v={ SELECT * FROM S }))", false},
	{"LET X(p=fx(v={ SELECT * FROM S })) = p SELECT X() AS c FROM scope()", false},
	{"LET X = SELECT * FROM S SELECT if(condition=1, then=7 IN X.i) AS c FROM scope()", false},
	{"SELECT * FROM range(start=0, end=fx(v={ SELECT * FROM S }))", false},
}...)

// c18Sources gives the sources: n is for S and m for R.
func c18Text(q string, n, m int) string {
	q = strings.ReplaceAll(q, "FROM S", fmt.Sprintf("FROM gen(n=%d, name='S')", n))
	return strings.ReplaceAll(q, "FROM R", fmt.Sprintf("FROM gen(n=%d, name='R')", m))
}

// c18Run evaluates the statements with a context that the hook may cancel,
// reads up to stop rows (-1: all) and checks that everything ends.
func c18Run(t *T, text string, ctx context.Context, e *Env, stop int, cancel func()) int {
	stmts := mustParse(t, text)
	rows := 0
	for _, s := range stmts {
		out := s.Eval(ctx, e.scope)
		for range out {
			rows++
			if rows == stop {
				break
			}
		}
		if rows == stop {
			// The consumer is not interested any more.
			cancel()
			if vsched.Quiesce() > 0 {
				t.Fail("leak", "%s, cancelled after %d rows: %s", text, rows, vsched.Describe())
				return rows
			}
			for range out {
				t.Fail("closed", "%s: a row after the end", text)
				return rows
			}
			break
		}
	}
	if n := vsched.Quiesce(); n > 0 {
		t.Fail("leak", "%s: %s", text, vsched.Describe())
	}
	if e.live != 0 {
		t.Fail("live", "%s: %d sources are still running", text, e.live)
	}
	c17Opened(t, e)
	return rows
}

func c18Env(t *T) *Env {
	e := newEnv(t)
	e.scope.AppendFunctions()
	return e
}

func init() {
	register(&Prop{
		ID:    "C18",
		Level: "model_checking",
		Rule:  "whatever the moment of the cancellation every goroutine ends, the output is closed, sources stop and the destructors of their scopes have run",
		Suites: []Suite{
			{
				Name:  "uncancelled",
				Bound: "112 queries over sources of 0..2 rows end by themselves and leave nothing",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, q := range c18All {
						for n := 0; n < 3; n++ {
							for m := 0; m < 3; m++ {
								if m > 0 && !strings.Contains(q.text, "FROM R") {
									continue
								}
								text := c18Text(q.text, n, m)
								if !y(Case{text, func(t *T) {
									e := newEnv(t)
									rows := c18Run(t, text, bg, e, -1, func() {})
									t.Sig("%d", rows)
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "cancelled by the source",
				Steps: 20000,
				Bound: "112 queries over endless and finite sources, cancelled when one of the first 4 rows of either is produced; the consumer reads on",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, q := range c18All {
						for _, nm := range [][2]int{{-1, 2}, {2, -1}, {-1, -1}, {3, 2}} {
							if !strings.Contains(q.text, "FROM R") && (nm[0] == 2 || nm[1] == -1) {
								continue
							}
							for at := int64(1); at < 6; at++ {
								text := c18Text(q.text, nm[0], nm[1])
								if !y(Case{fmt.Sprintf("row %d of %s", at, text), func(t *T) {
									e := newEnv(t)
									ctx, cancel := context.WithCancel(bg)
									defer cancel()
									var n int64
									e.hook = func(name string, i int64) {
										if atomic.AddInt64(&n, 1) == at {
											cancel()
										}
									}
									rows := c18Run(t, text, ctx, e, -1, func() {})
									t.Sig("%d", rows)
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "cancelled by the consumer",
				Steps: 20000,
				Bound: "queries that stream, over endless sources, cancelled by a consumer that stops after 1..3 rows",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, q := range c18All {
						if !q.stream {
							continue
						}
						for _, nm := range [][2]int{{-1, 1}, {2, -1}, {-1, -1}} {
							for stop := 1; stop < 4; stop++ {
								text := c18Text(q.text, nm[0], nm[1])
								if !y(Case{fmt.Sprintf("after %d rows of %s", stop, text), func(t *T) {
									e := newEnv(t)
									ctx, cancel := context.WithCancel(bg)
									rows := c18Run(t, text, ctx, e, stop, cancel)
									t.Sig("%d", rows)
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "other sources",
				Steps: 20000,
				Bound: "the queries over 13 other sources (a materialised query, a definition with and without parameters, lists, range(), foreach() with and without workers, chain(), flatten(), if()), not cancelled, cancelled by a consumer that stops after 1 and 2 rows and limited to 1 row",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, src := range []string{"M", "Q", "P(n=4)", "L", "V", "range(start=0, end=4)", "foreach(row=L)", "foreach(row=M, query={ SELECT * FROM M })", "foreach(row=M, query={ SELECT * FROM M }, workers=2)",
						"chain(a=M, b=Q)", "flatten(query={ SELECT i, (1, 2) AS j FROM M })", "if(condition=1, then=M)", "if(condition=0, else=P(n=3))"} {
						for _, q := range c18All {
							for stop := -1; stop < 3; stop++ {
								text := strings.ReplaceAll(strings.ReplaceAll(q.text, "FROM S", "FROM "+src), "FROM R", "FROM M")
								if stop == 0 {
									if strings.HasPrefix(text, "LET X <=") || strings.Contains(text, "LET Y") || strings.Contains(text, "LIMIT") {
										continue
									}
									text += " LIMIT 1"
								}
								if !y(Case{fmt.Sprintf("after %d rows of %s", stop, text), func(t *T) {
									e := newEnv(t)
									e.set("L", []int64{1, 2, 3}).set("V", []types.Row{D("i", int64(1)), D("i", int64(2)), D("i", int64(3))})
									e.query("LET M <= SELECT * FROM gen(n=4) LET Q = SELECT * FROM gen(n=4) LET P(n) = SELECT * FROM gen(n=n)")
									ctx, cancel := context.WithCancel(bg)
									defer cancel()
									at := stop
									if at == 0 {
										at = -1
									}
									t.Sig("%d", c18Run(t, text, ctx, e, at, cancel))
								}}) {
									return
								}
							}
						}
					}
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			for i, q := range c18All {
				text := c18Text(q.text, 2, 1)
				for _, stop := range []int{-1, 0} {
					if stop == 0 && !q.stream {
						continue
					}
					weight, quick := 1.0, 1
					if strings.Contains(q.text, "async") {
						// A hundred workers.
						weight, quick = 40, 0
					}
					if i < 8 {
						weight, quick = 10, 2
					}
					res = append(res, Scenario{
						Name: fmt.Sprintf("%s (reads %d)", text, stop), Quick: quick, Thorough: quick + 1, EarlyTimers: true, MaxSteps: 20000, Weight: weight,
						Body: func(t *T) {
							e := newEnv(t)
							ctx, cancel := context.WithTimeout(bg, time.Second)
							defer cancel()
							if stop < 0 {
								c18Run(t, text, ctx, e, -1, func() {})
								return
							}
							// Nobody reads.
							stmts := mustParse(t, text)
							var out <-chan types.Row
							for _, s := range stmts {
								out = s.Eval(ctx, e.scope)
							}
							if n := vsched.Quiesce(); n > 0 {
								t.Fail("leak", "%s: %s", text, vsched.Describe())
								return
							}
							for range out {
								t.Fail("closed", "%s: a row after the end", text)
								return
							}
							if e.live != 0 {
								t.Fail("live", "%s: %d sources are still running", text, e.live)
							}
							c17Opened(t, e)
						},
					})
				}
			}
			return res
		},
	})
}

var _ = vfilter.NewScope
