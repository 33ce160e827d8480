package main

import (
	"context"
	"fmt"
	"strings"
	"sync"

	vfilter "REPO"
	"REPO/arg_parser"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// c28 counts the resources that the functions and plugins of a query hold:
// each is released by a destructor of the scope that was passed.
type c28 struct {
	mu                         sync.Mutex
	live, peak, taken, refused int
	twice                      bool
	refusedBy                  string
}

func (c *c28) take(scope types.Scope, by string) {
	c.mu.Lock()
	c.live++
	c.taken++
	c.peak = max(c.peak, c.live)
	c.mu.Unlock()
	done := false
	free := func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		if done {
			c.twice = true
			return
		}
		done = true
		c.live--
	}
	if scope.AddDestructor(free) != nil {
		free()
		c.mu.Lock()
		c.refused++
		c.refusedBy = by
		c.mu.Unlock()
	}
}

type c28Args struct {
	V types.Any `vfilter:"optional,field=v"`
}

type c28LamArgs struct {
	F string    `vfilter:"required,field=f,lambda"`
	V types.Any `vfilter:"optional,field=v"`
}

type c28Rows struct{ c *c28 }

func (r c28Rows) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "rows", ArgType: tm.AddType(scope, &genArgs{})}
}

func (r c28Rows) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		arg := &genArgs{}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
			scope.Log("rows: %v", err)
			return
		}
		r.c.take(scope, "rows")
		for i := int64(0); i < arg.N; i++ {
			select {
			case <-ctx.Done():
				return
			case out <- D("i", i):
			}
		}
	}()
	return out
}

func c28Env(t *T) (*Env, *c28) {
	e := newEnv(t)
	c := &c28{}
	e.scope.AppendFunctions(
		&vfilter.GenericFunction{FunctionName: "g", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			arg := &c28Args{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
				scope.Log("g: %v", err)
			}
			c.take(scope, "g")
			if arg.V == nil {
				return types.Null{}
			}
			return arg.V
		}},
		&vfilter.GenericFunction{FunctionName: "lam", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			f, _ := args.Get("f")
			v, _ := args.Get("v")
			l, err := vfilter.ParseLambda(fmt.Sprint(lazyless(ctx, scope, f)))
			if err != nil {
				t.Fail("lambda", "%v", err)
				return types.Null{}
			}
			var res types.Any
			times := int64(1)
			if n, pres := args.Get("n"); pres {
				times, _ = lazyless(ctx, scope, n).(int64)
			}
			for ; times > 0; times-- {
				res = l.Reduce(ctx, scope, []types.Any{v})
			}
			return res
		}},
	)
	e.scope.AppendPlugins(c28Rows{c})
	e.query("LET F(x) = g(v=x) LET FF(x) = F(x=g(v=x)) LET V = g(v=7) LET FQ(x) = SELECT g(v=x) AS a FROM rows(n=2) LET FD(x=g(v=1)) = x LET QD(x=g(v=1)) = SELECT x FROM rows(n=1)")
	return e, c
}

var c28Exprs = []string{
	"i", "g(v=i)", "F(x=i)", "F(x=g(v=i))", "FF(x=i)", "V", "FQ(x=i)", "FD()", "QD()", "{ SELECT g(v=i) AS a FROM rows(n=2) }", "{ SELECT * FROM FQ(x=i) WHERE g(v=a) }",
	"if(condition=g(v=1), then=g(v=i), else=g(v=2))", "if(condition=1, then={ SELECT g(v=i) AS a FROM rows(n=2) })", "dict(a=g(v=i)).a", "dict(a=[g(v=i), F(x=1)], b={ SELECT g(v=i) FROM rows(n=1) })",
	"(g(v=i), FQ(x=2))", "g(v=i) + g(v=1)", "NOT g(v=i)", "-g(v=i)", "g(v=i) AND g(v=1) OR F(x=0)", "g(v=i) IN (1, g(v=2))", "get(item=dict(a=g(v=i)), member='a')", "len(list=FQ(x=i))",
	"fx(v=g(v=i))", "lam(f='x=>g(v=x)', v=i)", "lam(f='x=>F(x=x + g(v=1))', v=g(v=i))", "lam(f='x=>FQ(x=x)', v=i)", "lam(f='x=>g(v=x)', v=i, n=N)", "lam(f='x=>F(x=x)', v=i, n=N)", "format(format='%v', args=[g(v=i), V])", "sum(item=g(v=i))", "count() + g(v=i)", "enumerate(items=g(v=i))", "max(item=V)",
	"{ SELECT count() AS c, g(v=i) AS k FROM rows(n=3) GROUP BY i }", "{ SELECT g(v=i) AS k FROM rows(n=3) ORDER BY k LIMIT 2 }", "{ SELECT * FROM foreach(row={ SELECT g(v=i) AS k FROM rows(n=2) }, query={ SELECT g(v=k) FROM rows(n=1) }) }", "FQ(x=i).a", "FQ(x=i)[0].a",
}

var c28Stmts = []string{
	"SELECT %s AS a FROM rows(n=N)",
	"SELECT *, %s AS a FROM rows(n=N)",
	"SELECT %s AS a, %s AS b FROM rows(n=N) WHERE a OR TRUE",
	"SELECT i FROM rows(n=N) WHERE %s OR TRUE",
	"SELECT i FROM rows(n=N) WHERE %s AND FALSE",
	"SELECT %s AS a FROM rows(n=N) ORDER BY a",
	"SELECT %s AS a, i FROM rows(n=N) WHERE %s OR TRUE ORDER BY i DESC",
	"SELECT %s AS a, count() AS c FROM rows(n=N) GROUP BY i",
	"SELECT %s AS a, count() AS c FROM rows(n=N) GROUP BY 1",
	"SELECT i, count() AS c FROM rows(n=N) WHERE %s OR TRUE GROUP BY i",
	"SELECT i, count() AS c FROM rows(n=N) WHERE %s AND FALSE GROUP BY i",
	"SELECT %s AS a, count() AS c FROM rows(n=N) GROUP BY a ORDER BY c",
	"SELECT count() AS c FROM rows(n=N) GROUP BY i, %s",
	"SELECT * FROM foreach(row={ SELECT %s AS a, i FROM rows(n=N) }, query={ SELECT %s AS b FROM rows(n=1) })",
	"SELECT * FROM foreach(row={ SELECT i FROM rows(n=N) }, query={ SELECT %s AS b FROM rows(n=1) WHERE %s OR TRUE }, workers=2)",
	"SELECT * FROM foreach(row={ SELECT %s AS a FROM rows(n=N) })",
	"SELECT * FROM chain(a={ SELECT %s AS a FROM rows(n=N) }, b={ SELECT %s AS a FROM rows(n=1) })",
	"SELECT * FROM if(condition=TRUE, then={ SELECT %s AS a FROM rows(n=N) })",
	"SELECT * FROM flatten(query={ SELECT %s AS a, (1, 2) AS b FROM rows(n=N) })",
	"SELECT * FROM gen(n={ SELECT %s AS a FROM rows(n=N) })",
	"SELECT { SELECT %s AS z FROM rows(n=N) } AS q FROM rows(n=2)",
	"LET S(n) = SELECT %s AS a FROM rows(n=n) SELECT * FROM S(n=N)",
	"LET S = SELECT %s AS a, i FROM rows(n=N) SELECT a, %s AS b FROM S",
	"LET S = SELECT %s AS a, i FROM rows(n=N) SELECT a FROM rows(n=1) WHERE S",
	"LET M <= SELECT %s AS a FROM rows(n=N) SELECT a FROM M",
	"LET i = 3 LET M <= %s SELECT M FROM rows(n=N)",
	"EXPLAIN SELECT %s AS a FROM rows(n=N)",
	"SELECT * FROM range(start=0, end=N) WHERE dict(i=_value) AND g(v=_value)",
}

func c28Text(stmt, x string, n int) string {
	return strings.ReplaceAll(strings.ReplaceAll(stmt, "%s", x), "N)", fmt.Sprint(n)+")")
}

func (c *c28) check(t *T, q, when string, full bool) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.live != 0 {
		t.Fail("released", "%s: %d of %d resources are not released %s", q, c.live, c.taken, when)
		return false
	}
	if c.twice {
		t.Fail("twice", "%s: released twice", q)
		return false
	}
	if full && c.refused != 0 {
		t.Fail("refused", "%s: a destructor was refused by the scope passed to %s()", q, c.refusedBy)
		return false
	}
	return true
}

// c28Full runs a query to its end.
func c28Full(t *T, stmt, x string) {
	peaks := []int{}
	q := ""
	// An index and a condition take the first rows of a query and stop it.
	full := !strings.Contains(x, "[0]") && !strings.Contains(stmt, "WHERE S")
	early := !full || strings.Contains(x, "LIMIT") || strings.Contains(stmt, "WHERE %s") && strings.ContainsAny(x, "Q")
	for _, n := range []int{6, 12} {
		e, c := c28Env(t)
		q = c28Text(stmt, x, n)
		stmts, err := vfilter.MultiParse(q)
		if err != nil {
			t.Sig("invalid")
			return
		}
		for _, s := range stmts {
			for range s.Eval(bg, e.scope) {
			}
			if !early && !c.check(t, q, "at the end of the query", true) {
				return
			}
		}
		settle(t, q)
		if !c.check(t, q, "after the end of the query", full) {
			return
		}
		peaks = append(peaks, c.peak)
		t.Sig("%d", c.taken)
	}
	if full && peaks[0] != peaks[1] {
		t.Fail("growth", "%s: holds up to %d resources, and up to %d with half the rows", q, peaks[1], peaks[0])
	}
}

// c28Stop stops a query after some rows.
func c28Stop(t *T, stmt, x string, after int, how string) {
	e, c := c28Env(t)
	q := c28Text(stmt, x, 3)
	if how == "limit" {
		q += fmt.Sprintf(" LIMIT %d", after)
	}
	stmts, err := vfilter.MultiParse(q)
	if err != nil {
		t.Sig("invalid")
		return
	}
	for i, s := range stmts {
		ctx, cancel := context.WithCancel(context.Background())
		rows := 0
		if how == "cancel" && i == len(stmts)-1 && after == 0 {
			cancel()
		}
		for range s.Eval(ctx, e.scope) {
			rows++
			if how == "cancel" && rows == after {
				cancel()
			}
		}
		t.Sig("%d", rows)
		settle(t, q)
		if !c.check(t, q, fmt.Sprintf("after %s %d", how, after), false) {
			cancel()
			return
		}
		cancel()
	}
}

func init() {
	register(&Prop{
		ID:    "C28",
		Level: "model_checking",
		Rule:  "functions and plugins take a resource with a destructor of the scope they are passed: accepted, released at the end of the query, and no more of them held with more rows",
		Suites: []Suite{
			{
				Name:  "to the end",
				Bound: fmt.Sprintf("%d expressions that take resources x %d positions in queries, with 6 and 12 rows", len(c28Exprs), len(c28Stmts)),
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, s := range c28Stmts {
						for _, x := range c28Exprs {
							s, x := s, x
							if !y(Case{s + " with " + x, func(t *T) { c28Full(t, s, x) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "stopped",
				Bound: "the same cancelled and limited after 0, 1 and 2 of 3 rows",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, s := range c28Stmts {
						for _, x := range c28Exprs {
							s, x := s, x
							if !y(Case{s + " with " + x, func(t *T) {
								for after := 0; after < 3; after++ {
									c28Stop(t, s, x, after, "cancel")
									c28Stop(t, s, x, after, "limit")
								}
							}}) {
								return
							}
						}
					}
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			for i, q := range []string{
				"SELECT g(v=i) AS a FROM rows(n=2)",
				"SELECT i FROM rows(n=2) WHERE g(v=i)",
				"SELECT F(x=i) AS a FROM rows(n=2) ORDER BY a",
				"SELECT g(v=i) AS a, count() AS c FROM rows(n=2) WHERE g(v=1) GROUP BY i",
				"SELECT FQ(x=i) AS a FROM rows(n=1)",
				"SELECT { SELECT g(v=i) FROM rows(n=1) } AS a FROM rows(n=1)",
				"SELECT * FROM FQ(x=g(v=1))",
				"SELECT * FROM foreach(row={ SELECT g(v=i) AS i FROM rows(n=2) }, query={ SELECT g(v=i) AS a FROM rows(n=1) })",
				"SELECT * FROM foreach(row={ SELECT i FROM rows(n=2) }, query={ SELECT g(v=i) AS a FROM rows(n=1) }, workers=2)",
				"SELECT * FROM chain(a={ SELECT g(v=i) FROM rows(n=1) }, b={ SELECT g(v=i) FROM rows(n=1) })",
				"LET M <= SELECT g(v=i) AS a FROM rows(n=2)",
			} {
				for _, how := range []string{"", "limit", "cancel"} {
					if how == "limit" && i == 10 {
						continue
					}
					q, how := q, how
					name := q
					depth := 1
					if i < 2 {
						depth = 2
					}
					if how != "" {
						name += ", " + how
					}
					res = append(res, Scenario{Name: name, Quick: depth, Thorough: depth + 1, Body: func(t *T) {
						e, c := c28Env(t)
						q := q
						if how == "limit" {
							q += " LIMIT 1"
						}
						ctx, cancel := context.WithCancel(bg)
						defer cancel()
						for range mustParse(t, q)[0].Eval(ctx, e.scope) {
							if how == "cancel" {
								cancel()
							}
						}
						if how == "" && !c.check(t, q, "at the end of the query", true) {
							return
						}
						settle(t, q)
						c.check(t, q, "after the end of the query", how == "")
						t.Sig("%d %d", c.taken, c.refused)
					}})
				}
			}
			return res
		},
	})
}
