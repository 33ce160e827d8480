package main

import (
	"context"
	"fmt"
	"strings"

	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// A hole is a reference to another definition. eager holes are evaluated
// whenever the body is.
var c15Holes = []string{"%s", "%s()", "%s(p=p)", "%s(p=1)", "%s.a", "%s(p=2).a", "%s().a", "-%s"}

var c15Froms = []string{"%s", "%s()", "%s(p=1)"}

// Bodies with one hole @ for an expression or # for a source.
var c15Bodies = []string{
	"@", "@ + 1", "1 + @", "NOT @", "(@, 1)", "@ = 1", "1 IN @", "@ =~ 'a'", "(@)", "@ AND 1", "1 AND @", "0 OR @",
	"dict(a=@)", "fx(v=@)", "if(condition=@, then=1)", "if(condition=1, then=@)", "if(condition=0, else=@)", "dict(a=[@])", "get(item=@, field='a')", "(@).a", "(1, 2)[(@)]", "len(list=@)",
	"F(n=@)", "dict(a={ SELECT @ AS a FROM one() }).a.a",
	"SELECT @ AS a FROM one()", "SELECT 1 AS a FROM one() WHERE @", "SELECT 1 AS a FROM one() GROUP BY @", "SELECT @ AS a FROM one() ORDER BY a", "SELECT *, @ AS a FROM one() LIMIT 1", "SELECT @ AS a FROM one() GROUP BY 1",
	"SELECT { SELECT @ AS a FROM one() } AS a FROM one()", "SELECT * FROM showargs(a=@)", "SELECT * FROM if(condition=@, then={ SELECT 1 AS a FROM one() })", "SELECT a FROM foreach(row=@, query={ SELECT 1 AS a FROM one() })",
	"SELECT a FROM foreach(row={ SELECT @ AS a FROM one() }, query={ SELECT a FROM one() })", "SELECT * FROM foreach(row={ SELECT * FROM one() }, query={ SELECT @ AS a FROM one() })", "SELECT * FROM flatten(query={ SELECT @ AS a FROM one() })",
	"SELECT fx(v=@) AS a FROM one()", "SELECT @ FROM range(start=0, end=@, step=1)",
	"SELECT * FROM #", "SELECT a FROM # WHERE a", "SELECT count() AS a FROM # GROUP BY 1", "SELECT * FROM # ORDER BY a LIMIT 1", "SELECT * FROM chain(x={ SELECT * FROM # })", "SELECT * FROM if(condition=1, then={ SELECT * FROM # })",
	"SELECT * FROM foreach(row={ SELECT * FROM # }, query={ SELECT 1 AS a FROM one() })", "SELECT * FROM foreach(row={ SELECT * FROM one() }, query={ SELECT * FROM # })", "SELECT * FROM foreach(row=one(), query={ SELECT * FROM # })", "SELECT { SELECT * FROM # } AS a FROM one()",
	"SELECT * FROM foreach(row={ SELECT * FROM one() }, query={ SELECT * FROM # }, workers=2)", "SELECT * FROM flatten(query={ SELECT * FROM # })", "EXPLAIN SELECT * FROM #", "dict(a={ SELECT * FROM # }).a",
}

var c15Params = []string{"", "(p)", "(p=@)", "(p=1)", "(p={ SELECT * FROM # })"}

var c15Uses = []string{
	"SELECT X AS c FROM one()", "SELECT X(p=1) AS c FROM one()", "SELECT X() AS c, 7 AS d FROM one()", "SELECT X.a AS c FROM one()", "SELECT X(p=1).a AS c FROM one()", "SELECT * FROM X", "SELECT * FROM X(p=1)", "SELECT 7 AS d FROM one() WHERE NOT X",
	"SELECT 7 AS d FROM one() GROUP BY X", "SELECT * FROM foreach(row={ SELECT * FROM X }, query={ SELECT * FROM X(p=2) })", "SELECT * FROM if(condition=X, then={ SELECT 1 FROM one() }, else={ SELECT 2 FROM one() })", "SELECT fx(v=X) AS c FROM one() ORDER BY c LIMIT 1",
	"LET Z <= X SELECT * FROM Z", "LET Z <= SELECT X AS c FROM X SELECT * FROM Z",
}

func c15Env(t *T) *Env {
	e := newEnv(t)
	e.scope.AppendPlugins(
		vfilter.GenericListPlugin{PluginName: "one", Function: listRows(func() []types.Row {
			return []types.Row{D("a", int64(1))}
		})},
	)
	e.query("LET F(n) = if(condition=n, then=n + F(n=n - (1)), else=0)")
	return e
}

func fill(body, expr, from string) string {
	return strings.ReplaceAll(strings.ReplaceAll(body, "@", expr), "#", from)
}

// c15Usable runs another query on the scope.
func c15Usable(t *T, e *Env, what string) {
	expect(t, "usable", "afterwards, "+what, showRows(e.query("SELECT 1 + 1 AS a, F(n=4) AS b FROM one()")), "{a:2,b:10}")
}

// c15Run evaluates all uses of the definitions, each must end.
func c15Run(t *T, used int, defs []string, uses []string, mustLog func(use string) bool) {
	text := strings.Join(defs, " ")
	if _, err := vfilter.MultiParse(text); err != nil {
		t.Fail("parse", "%s: %v", text, err)
		return
	}
	for _, u := range uses {
		e := c15Env(t)
		// Most of the stack is used already.
		for i := 0; i < used; i++ {
			e.scope.(interface{ IncDepth() }).IncDepth()
		}
		e.query(text)
		rows := e.query(u)
		e.takeTrace()
		over := e.hasLog("Stack Overflow")
		if mustLog != nil && mustLog(u) && !over {
			t.Fail("log", "%s %s: no stack overflow reported, gives %s", text, u, trunc(showRows(rows), 300))
		}
		// What does not depend on the definition is not affected.
		if u == "SELECT X() AS c, 7 AS d FROM one()" {
			if len(rows) != 1 || !strings.HasSuffix(showRows(rows), ",d:7}") {
				t.Fail("finishes", "%s %s: gives %s", text, u, trunc(showRows(rows), 300))
			}
		}
		t.Sig("%v %s", over, trunc(showRows(rows), 40))
		c15Usable(t, e, text+" "+u)
		settle(t, "recursion")
	}
}

// c15Known marks bodies that refer to themselves for each level of depth in
// ways that need not be evaluated.
func c15Direct(b, h string) bool {
	switch h {
	case "%s", "-%s", "%s()":
	default:
		return false
	}
	switch b {
	case "@", "@ + 1", "1 + @", "NOT @", "(@, 1)", "@ = 1", "(@)", "@ AND 1", "1 AND @", "0 OR @", "dict(a=@)", "fx(v=@)", "if(condition=@, then=1)", "if(condition=1, then=@)", "if(condition=0, else=@)":
		return true
	}
	return false
}

func c15Cases(tier Tier, y func(Case) bool) {
	n := 0
	one := func(name, defs string, uses []string, must func(string) bool) bool {
		n++
		used := 980
		if strings.Count(defs, "LET") > 1 {
			used = 986
		}
		if n%8 == 0 && !strings.Contains(defs, "SELECT") && uses[0] == "SELECT X AS c FROM one()" {
			used, uses = 0, uses[:1]
		}
		return y(Case{name, func(t *T) { c15Run(t, used, []string{defs}, uses, must) }})
	}
	// Each body refers to itself.
	for _, b := range c15Bodies {
		holes := c15Holes
		if strings.Contains(b, "#") {
			holes = c15Froms
		}
		for _, h := range holes {
			ref := fmt.Sprintf(h, "X")
			for _, p := range []string{"", "(p)"} {
				uses := c15Uses
				if tier == Quick {
					uses = nil
					for i, u := range c15Uses {
						if i < 3 || (i+len(b)+len(h)+len(p))%4 == 0 {
							uses = append(uses, u)
						}
					}
				}
				d := "LET X" + p + " = " + fill(b, ref, ref)
				must := func(u string) bool {
					return c15Direct(b, h) && (strings.HasPrefix(u, "SELECT X AS") || strings.HasPrefix(u, "SELECT X() AS")) && (p == "" || h != "%s")
				}
				if !one(d, d, uses, must) {
					return
				}
			}
		}
	}
	// Default values refer to their definition.
	for _, p := range []string{"p=@", "p=(@, 1)", "p=fx(v=@)", "p=[@]", "p={ SELECT * FROM X() }", "p={ SELECT @ AS a FROM one() }", "q=1, p=@", "p=if(condition=@, then=1)", "p=dict(a=@)"} {
		for _, h := range []string{"X()", "X().a", "X(q=2)", "X"} {
			for _, b := range []string{"p", "1", "SELECT p AS a FROM one()", "SELECT * FROM p", "dict(a=p)", "p.a"} {
				d := "LET X(" + fill(p, h, h) + ") = " + b
				uses := []string{"SELECT X() AS c, 7 AS d FROM one()", "SELECT * FROM X()", "SELECT X().a AS c FROM one()", "SELECT * FROM X", "SELECT X AS c FROM one()", "SELECT X(p=1) AS c FROM one()"}
				if !one(d, d, uses, nil) {
					return
				}
			}
		}
	}
	// Queries given as arguments refer to the parameter they are bound to.
	for _, f := range []string{"if(condition=1, then=p)", "chain(a=p)", "foreach(row=p, query={ SELECT 1 FROM one() })", "foreach(row=one(), query=p)", "flatten(query=p)", "p", "X(p=p)", "foreach(row={ SELECT * FROM p }, query={ SELECT * FROM p })"} {
		for _, b := range []string{"p", "p.a", "SELECT * FROM p", "SELECT p AS a FROM one()", "X(p=p)"} {
			q := "{ SELECT * FROM " + f + " }"
			uses := []string{"SELECT * FROM X(p=" + q + ")", "SELECT X(p=" + q + ") AS c FROM one()", "SELECT X(p=" + q + ").a AS c FROM one()"}
			if !one("LET X(p) = "+b+" with "+q, "LET X(p) = "+b, uses, nil) {
				return
			}
			if !one("LET X(p="+q+") = "+b, "LET X(p="+q+") = "+b, []string{"SELECT * FROM X()", "SELECT X() AS c FROM one()", "SELECT X().a AS c FROM one()", "SELECT * FROM X"}, nil) {
				return
			}
		}
	}
	// Two (three) definitions refer to each other.
	small := []string{"@", "@ + 1", "dict(a=@)", "fx(v=@)", "if(condition=1, then=@)", "SELECT @ AS a FROM one()", "SELECT 1 AS a FROM one() WHERE @", "SELECT * FROM #", "SELECT * FROM foreach(row={ SELECT * FROM # }, query={ SELECT 1 AS a FROM one() })", "SELECT * FROM chain(x={ SELECT * FROM # })"}
	for i, b := range small {
		for j, c := range small {
			for k, h := range []string{"%s", "%s(p=1)", "%s.a"} {
				for l, g := range []string{"%s", "%s(p=1)", "%s.a"} {
					if tier == Quick && (i+j+k+l)%3 != 0 {
						continue
					}
					ref := func(h, n, b string) string {
						f := n
						if h == "%s(p=1)" {
							f = n + "(p=1)"
						}
						return fill(b, fmt.Sprintf(h, n), f)
					}
					d := "LET X(p) = " + ref(h, "Y", b) + " LET Y(p) = " + ref(g, "X", c)
					if tier == Thorough {
						d = "LET X(p) = " + ref(h, "W", b) + " LET W(p) = Y(p=p) LET Y(p) = " + ref(g, "X", c)
					}
					if !one(d, d, []string{"SELECT X() AS c, 7 AS d FROM one()", "SELECT * FROM X(p=1)", "SELECT X.a AS c FROM one()", "SELECT Y(p=1).a AS c FROM Y"}, nil) {
						return
					}
				}
			}
		}
	}
}

// c15Good are recursions that end. %d is the depth; want gives the rows.
var c15Good = []struct {
	defs, use string
	want      func(n int) string
	max       int
}{
	{"", "SELECT F(n=%d) AS c FROM one()", func(n int) string { return fmt.Sprintf("{c:%d}", n*(n+1)/2) }, 240},
	{"LET G(n) = n AND G(n=n - (1))", "SELECT G(n=%d) AS c FROM one()", func(n int) string {
		return map[bool]string{true: "{c:0}", false: "{c:false}"}[n == -1]
	}, 240},
	{"LET E(n) = if(condition=n, then=O(n=n - (1)), else=1) LET O(n) = if(condition=n, then=E(n=n - (1)), else=0)", "SELECT E(n=%d) AS c FROM one()", func(n int) string { return fmt.Sprintf("{c:%d}", 1-n%2) }, 240},
	{"LET L(n) = if(condition=n, then=L(n=n - (1)) + (n, ), else=(0, ))", "SELECT len(list=L(n=%d)) AS c FROM one()", func(n int) string { return fmt.Sprintf("{c:%d}", n+1) }, 120},
	{"LET Q(n) = SELECT * FROM if(condition=n, then={ SELECT a + 1 AS a FROM Q(n=n - (1)) }, else={ SELECT 0 AS a FROM one() })", "SELECT * FROM Q(n=%d)", func(n int) string { return fmt.Sprintf("{a:%d}", n) }, 40},
	{"LET Q(n) = SELECT * FROM chain(x={ SELECT n AS a FROM one() }, y={ SELECT * FROM if(condition=n, then={ SELECT * FROM Q(n=n - (1)) }) })", "SELECT * FROM Q(n=%d)", func(n int) string {
		var p []string
		for i := n; i >= 0; i-- {
			p = append(p, fmt.Sprintf("{a:%d}", i))
		}
		return strings.Join(p, ";")
	}, 30},
	{"LET Q(n) = SELECT count() AS a FROM chain(x={ SELECT 1 FROM one() }, y={ SELECT * FROM if(condition=n, then={ SELECT * FROM Q(n=n - (1)) }) }) GROUP BY 1", "SELECT * FROM Q(n=%d)", func(n int) string {
		if n == 0 {
			return "{a:1}"
		}
		return "{a:2}"
	}, 30},
	{"LET Q(n) = SELECT * FROM foreach(row={ SELECT n - (1) AS m FROM one() WHERE n }, query={ SELECT * FROM chain(x={ SELECT m AS a FROM one() }, y={ SELECT * FROM Q(n=m) }) })", "SELECT * FROM Q(n=%d)", func(n int) string {
		var p []string
		for i := n - 1; i >= 0; i-- {
			p = append(p, fmt.Sprintf("{a:%d}", i))
		}
		return strings.Join(p, ";")
	}, 30},
	{"LET Q(n) = SELECT if(condition=n, then=Q(n=n - (1)).a[0] + 1, else=0) AS a FROM one()", "SELECT * FROM Q(n=%d)", func(n int) string { return fmt.Sprintf("{a:%d}", n) }, 60},
	{"LET D(n, acc=0) = if(condition=n, then=D(n=n - (1), acc=acc + n), else=acc)", "SELECT D(n=%d) AS c FROM one()", func(n int) string { return fmt.Sprintf("{c:%d}", n*(n+1)/2) }, 240},
	{"LET B(n) = if(condition=n > 1, then=B(n=n - (1)) + B(n=n - 2), else=n)", "SELECT B(n=%d) AS c FROM one()", func(n int) string {
		a, b := 0, 1
		for i := 0; i < n; i++ {
			a, b = b, a+b
		}
		return fmt.Sprintf("{c:%d}", a)
	}, 10},
}

func init() {
	register(&Prop{
		ID:    "C15",
		Level: "model_checking",
		Rule:  "every use of a runaway definition ends without a panic, leaves no goroutine, reports the overflow and leaves the scope usable; recursions that end give the right value",
		Suites: []Suite{
			{
				Name:  "runaway",
				Bound: "49 bodies with a reference to themselves in 8 forms (3 as a source), references in default values and cycles of two (thorough three) definitions, each in up to 14 uses with 20 (cycles 14, some with all 1000) levels of stack left",
				Gen:   cases(c15Cases),
			},
			{
				Name:  "ending",
				Bound: "11 recursive programs for every depth up to 10..240",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for i, g := range c15Good {
						step := 1
						if tier == Quick && g.max > 100 {
							step = 7
						}
						for n := 0; n <= g.max; n += step {
							if !y(Case{fmt.Sprintf("%d: depth %d", i, n), func(t *T) {
								e := c15Env(t)
								text := g.defs + " " + fmt.Sprintf(g.use, n)
								expect(t, "value", text, showRows(e.query(text)), g.want(n))
								for _, l := range e.errorLogs() {
									t.Fail("log", "%s: %s", text, trunc(l, 200))
								}
								c15Usable(t, e, text)
								t.Sig("ok")
								settle(t, "recursion")
							}}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "branching",
				Bound: "definitions that refer to themselves twice: at most 4000 evaluations of the body",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, b := range []string{"tick() + X + X", "tick() + X(p=X)", "(tick(), X, X)", "dict(t=tick(), a=X, b=X)"} {
						if !y(Case{b, func(t *T) {
							e := c15Env(t)
							n := 0
							e.scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "tick", Function: rawTick(&n)})
							e.query("LET X = " + b)
							l, err := vfilter.ParseLambda("x => X")
							if err != nil {
								t.Fail("parse", "%v", err)
								return
							}
							func() {
								defer func() {
									if r := recover(); r != nil {
										if r != errDeep {
											panic(r)
										}
										t.Fail("exponential", "LET X = %s: the body was evaluated more than 4000 times", b)
									}
								}()
								l.Reduce(bg, e.scope, []vfilter.Any{int64(1)})
							}()
						}}) {
							return
						}
					}
				}),
			},
		},
	})
}

func rawTick(n *int) func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		*n++
		if *n > 4000 {
			panic(errDeep)
		}
		return int64(1)
	}
}
