package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/arg_parser"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

func sortedTrace(s []string) string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return strings.Join(r, " ")
}

func sortWords(s string) string { return sortedTrace(strings.Fields(s)) }

// Expression trees with a noted leaf at each position. Leaves are named when
// the tree is complete.
type mkX func(next func() string) X

func c06Leaves() []mkX {
	var r []mkX
	for _, l := range []struct {
		s string
		v any
	}{{"1", int64(1)}, {"''", ""}, {"NULL", nil}, {"2", int64(2)}} {
		r = append(r, func(next func() string) X { return xFx(xLit(l.s, l.v), next()) })
	}
	return r
}

func xPara(m mkX) mkX { return func(n func() string) X { return xPar(m(n)) } }

func c06Combine(xs, ys, zs []mkX, par bool) []mkX {
	p := func(m mkX) mkX {
		if par {
			return xPara(m)
		}
		return m
	}
	var r []mkX
	for _, a := range xs {
		for _, b := range ys {
			for _, op := range []string{"AND", "OR", "=", "+", "IN", "<"} {
				r = append(r, func(n func() string) X { x := p(a)(n); return xOp(op, x, p(b)(n)) })
			}
			r = append(r, func(n func() string) X { x := a(n); return xList(x, b(n)) })
		}
	}
	for _, a := range xs {
		for _, b := range ys {
			for _, c := range zs {
				r = append(r, func(n func() string) X { x := a(n); y := b(n); return xIf(x, y, c(n)) })
			}
		}
	}
	return r
}

func c06Unary(xs []mkX) []mkX {
	var r []mkX
	for _, a := range xs {
		r = append(r,
			func(n func() string) X { return xNot(xPar(a(n))) },
			func(n func() string) X { return xFx(a(n), n()) },
			func(n func() string) X { return xDict("k", a(n)) },
			func(n func() string) X { return xMember(xPar(xDict("k", a(n))), "k") },
		)
	}
	return r
}

func c06Trees(tier Tier, y func(name string, x X) bool) {
	l0 := c06Leaves()
	l1 := append(c06Combine(l0, l0, l0, false), c06Unary(l0)...)
	emit := func(ms []mkX) bool {
		for _, m := range ms {
			k := 0
			x := m(func() string { k++; return string(rune('a' + k - 1)) })
			if !y(x.s, x) {
				return false
			}
		}
		return true
	}
	if !emit(l0) || !emit(l1) || !emit(c06Unary(l1)) {
		return
	}
	one := l0[:3]
	if !emit(c06Combine(l1, one, one[:2], true)) || !emit(c06Combine(one, l1, one[:2], true)) ||
		!emit(c06Combine(one, one, l1, true)) {
		return
	}
	// Chains without parentheses.
	for _, op := range []string{"AND", "OR"} {
		ok := seqs(3, 3, 4, func(s []int) bool {
			k := 0
			next := func() string { k++; return string(rune('a' + k - 1)) }
			x := l0[s[0]](next)
			for _, i := range s[1:] {
				x = xChain(op, x, l0[i](next))
			}
			return y(x.s, x)
		})
		if !ok {
			return
		}
	}
	if tier == Thorough {
		for _, a := range l1 {
			if !emit(c06Combine([]mkX{a}, l1, nil, true)) {
				return
			}
		}
	}
}

// xChain extends a chain of AND or OR; a decided chain stays decided.
func xChain(op string, a, b X) X {
	return X{a.s + " " + op + " " + b.s, func(e *menv) any {
		x := a.f(e)
		if mBool(x) == (op == "OR") {
			return x
		}
		return b.f(e)
	}}
}

func c06Tree(t *T, x X) {
	e := newEnv(t)
	rows := e.query("SELECT " + x.s + " AS x FROM scope()")
	var tr []string
	want := x.f(&menv{trace: &tr})
	expect(t, "evaluations", "evaluations of "+x.s, sortWords(e.takeTrace()), sortedTrace(tr))
	if len(rows) != 1 {
		t.Fail("rows", "%s: %d rows", x.s, len(rows))
	} else if strings.Contains(x.s, " OR ") || strings.Contains(x.s, " AND ") {
		// (AND and OR may return the operand or its truth.)
		v, _ := rows[0].Get("x")
		if !strings.HasPrefix(x.s, "dict") && !strings.Contains(x.s, ",") && e.scope.Bool(v) != mBool(want) && !strings.Contains(x.s, "+") && !strings.Contains(x.s, "=") &&
			!strings.Contains(x.s, "<") && !strings.Contains(x.s, "IN") {
			t.Fail("value", "%s is %s, want %s", x.s, show(v), mshow(want))
		}
	} else if strings.Count(x.s, " = ")+strings.Count(x.s, " < ")+strings.Count(x.s, " IN ")+strings.Count(x.s, "NOT ") < 2 {
		// (Nothing is said about operators on truth values.)
		v, _ := rows[0].Get("x")
		expect(t, "value", x.s, show(v), mshow(want))
	}
	settle(t, "tree")
	t.Sig("%s", strings.Join(tr, " "))
}

func c06Cols() []Col {
	i := xName("i")
	return []Col{
		{x: i},
		{x: xFx(i, "a"), as: "a"},
		{x: xFx(i, "b"), as: "b"},
		{x: xFx(i, "i"), as: "i"},
		{x: xOp("+", xFx(i, "l"), xFx(i, "r")), as: "s"},
		{x: xIf(i, xFx(i, "t"), xFx(i, "e")), as: "c"},
		{},
	}
}

func c06Wheres() []*X {
	a, b, i := xName("a"), xName("b"), xName("i")
	r := []*X{nil}
	for _, x := range []X{
		a, xOp("AND", a, b), xOp("OR", a, b), xOp("OR", b, xOp(">", a, xLit("1", int64(1)))),
		xOp("AND", i, xFx(a, "w")), xOp("=", a, a), xLit("FALSE", false),
		xOp("OR", xName("s"), xName("c")),
	} {
		r = append(r, &x)
	}
	return r
}

func c06Rows(t *T, q *Q, tb []*Dict, text string) {
	e := newEnv(t)
	e.set("T", copyTable(tb))
	rows := e.query(text)
	var tr []string
	want := q.eval(&menv{trace: &tr}, mtable(tb))
	expect(t, "evaluations", "evaluations of "+text, sortWords(e.takeTrace()), sortedTrace(tr))
	expect(t, "rows", text, showRows(rows), mshowRows(want))
	settle(t, "rows")
	t.Sig("%s %s", showRows(rows), sortedTrace(tr))
}

// Declared argument kinds: how often they are evaluated when the function
// reads them n times.
type (
	c06Any struct {
		V types.Any `vfilter:"optional,field=v"`
	}
	c06Lazy struct {
		V types.LazyExpr `vfilter:"optional,field=v"`
	}
	c06LAny struct {
		V types.LazyAny `vfilter:"optional,field=v"`
	}
	c06Query struct {
		V types.StoredQuery `vfilter:"optional,field=v"`
	}
	c06Str struct {
		V string `vfilter:"optional,field=v"`
	}
	c06Int struct {
		V int64 `vfilter:"optional,field=v"`
	}
	c06Bool struct {
		V bool `vfilter:"optional,field=v"`
	}
	c06Float struct {
		V float64 `vfilter:"optional,field=v"`
	}
	c06Strs struct {
		V []string `vfilter:"optional,field=v"`
	}
	c06Anys struct {
		V []types.Any `vfilter:"optional,field=v"`
	}
	c06Dicts struct {
		V []*Dict `vfilter:"optional,field=v"`
	}
	c06DictA struct {
		V *Dict `vfilter:"optional,field=v"`
	}
	c06UInt struct {
		V uint64 `vfilter:"optional,field=v"`
	}
	c06IntArg struct {
		V int `vfilter:"optional,field=v"`
	}
)

type c06Kind struct {
	name string
	lazy bool
	mk   func() any
	read func(ctx context.Context, scope types.Scope, a any)
}

func c06Kinds() []c06Kind {
	no := func(ctx context.Context, scope types.Scope, a any) {}
	return []c06Kind{
		{"any", false, func() any { return &c06Any{} }, no},
		{"lazy", true, func() any { return &c06Lazy{} }, func(ctx context.Context, scope types.Scope, a any) {
			a.(*c06Lazy).V.Reduce(ctx)
		}},
		{"lazyany", true, func() any { return &c06LAny{} }, func(ctx context.Context, scope types.Scope, a any) {
			if l, ok := a.(*c06LAny).V.(types.LazyExpr); ok {
				l.Reduce(ctx)
			}
		}},
		{"query", false, func() any { return &c06Query{} }, no},
		{"string", false, func() any { return &c06Str{} }, no},
		{"int64", false, func() any { return &c06Int{} }, no},
		{"bool", false, func() any { return &c06Bool{} }, no},
		{"float64", false, func() any { return &c06Float{} }, no},
		{"strings", false, func() any { return &c06Strs{} }, no},
		{"anys", false, func() any { return &c06Anys{} }, no},
		{"dicts", false, func() any { return &c06Dicts{} }, no},
		{"dict", false, func() any { return &c06DictA{} }, no},
		{"uint64", false, func() any { return &c06UInt{} }, no},
		{"int", false, func() any { return &c06IntArg{} }, no},
	}
}

var c06Vals = []string{"1", "'x'", "NULL", "FALSE", "1.5", "(1, 2)", "dict(k=1)", "-3", "T", "dict()", "''"}

func c06Args(t *T, k c06Kind, val string, reads int, form string, plugin bool) {
	e := newEnv(t)
	e.set("T", copyTable([]*Dict{D("i", 1), D("i", 2)}))
	call := func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		arg := k.mk()
		err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
		if err == nil {
			for i := 0; i < reads; i++ {
				k.read(ctx, scope, arg)
			}
		}
		e.note("called")
		return 1
	}
	// ign ignores its arguments.
	ign := func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		e.note("called")
		return 1
	}
	e.scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "f", Function: call},
		&vfilter.GenericFunction{FunctionName: "ign", Function: ign})
	e.scope.AppendPlugins(&vfilter.GenericListPlugin{PluginName: "f",
		Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
			call(ctx, scope, args)
			return nil
		}})
	var text string
	arg := strings.ReplaceAll(form, "V", "fx(v="+val+", n='a')")
	text = "SELECT f(v=" + arg + ") AS x FROM scope()"
	if form == "**" {
		text = "SELECT f(`**`=dict(v=fx(v=" + val + ", n='a'))) AS x FROM scope()"
	}
	if plugin {
		text = strings.Replace(text, "SELECT f(", "SELECT * FROM f(", 1)
		text = strings.Replace(text, " AS x FROM scope()", "", 1)
	}
	e.query(text)
	n := strings.Count(e.takeTrace(), "a(")
	settle(t, "args")
	min, max := 1, 1
	if form == "[V]" || form == "**" {
		// Array items are evaluated by the caller, a dict is
		// materialised.
	} else if form == "{SELECT V AS c FROM scope()}" {
		// A query is only run by who reads it.
		min = 0
	} else if k.lazy && !plugin && reads == 0 {
		min, max = 0, 0
	}
	if n < min || n > max {
		t.Fail("argument", "%s (%s read %d times): the argument was evaluated %d times", text, k.name, reads, n)
	}
	t.Sig("%d", n)
	if form == "V" && reads == 0 && !plugin {
		e.query(strings.ReplaceAll(text, "f(v", "ign(v"))
		if n := strings.Count(e.takeTrace(), "a("); n != 0 {
			t.Fail("ignored", "an argument that the function ignores was evaluated %d times", n)
		}
	}
}

// Programs around definitions: {D} is how a use evaluates the definition.
type c06Def struct {
	text  string
	eager bool
	kind  string // expr, call, query, qcall
}

var c06Defs = []c06Def{
	{"LET X = fx(v=5, n='d')", false, "expr"},
	{"LET X <= fx(v=5, n='d')", true, "expr"},
	{"LET X = if(condition=TRUE, then=fx(v=5, n='d'), else=fx(v=6, n='u'))", false, "expr"},
	{"LET X(p) = fx(v=p, n='d')", false, "call"},
	{"LET X(p) = if(condition=p, then=fx(v=p, n='d'), else=fx(v=6, n='u'))", false, "call"},
	{"LET X = SELECT fx(v=5, n='d') AS c FROM scope()", false, "query"},
	{"LET X <= SELECT fx(v=5, n='d') AS c FROM scope()", true, "query"},
	{"LET X(p) = SELECT fx(v=p, n='d') AS c FROM scope()", false, "qcall"},
	{"LET Y = SELECT fx(v=5, n='d') AS c, fx(v=1, n='u') AS z FROM scope() WHERE FALSE LET X = SELECT fx(v=5, n='d') AS c FROM chain(a={SELECT 1 AS o FROM scope()}, b=Y)", false, "query"},
}

// Uses with the number of times they read X.
var c06Uses = []struct {
	kinds string
	text  string
	n     int
}{
	{"all", "SELECT 1 AS one FROM scope()", 0},
	{"all", "SELECT @ AS a FROM scope()", 1},
	{"all", "SELECT @ AS a, @ AS b FROM scope()", 2},
	{"all", "SELECT @ AS a FROM scope() WHERE FALSE", 0},
	{"all", "SELECT @ AS a FROM scope() LIMIT 0", 0},
	{"all", "SELECT @ AS a, a AS b FROM scope() WHERE a", 1},
	{"all", "SELECT FALSE AND @ AS a, 1 OR @ AS b, NULL AND @ AS c, NOT FALSE OR @ AS d FROM scope()", 0},
	{"all", "SELECT if(condition=1, then=2, else=@) AS a, if(condition=0, then=@, else=2) AS b FROM scope()", 0},
	{"all", "SELECT if(condition=1, then=@, else=@) AS a FROM scope()", 1},
	{"all", "SELECT if(condition=FALSE, then=@, else=@) AS a FROM scope()", 1},
	{"all", "SELECT ign(v=@) AS a FROM scope()", 0},
	{"all", "SELECT twice(v=@) AS a FROM scope()", -1},
	{"all", "LET Z = @ SELECT 1 AS one FROM scope()", 0},
	{"all", "LET Z = SELECT @ AS a FROM scope() SELECT 1 AS one FROM scope()", 0},
	{"all", "LET Z <= SELECT @ AS a FROM scope() SELECT Z.a AS a, Z.a AS b, Z AS c FROM Z", 1},
	{"all", "LET Z = SELECT @ AS a FROM scope() SELECT a, a AS b, a AS c FROM Z", 1},
	{"all", "SELECT * FROM if(condition=TRUE, then={SELECT 1 AS o FROM scope()}, else={SELECT @ AS a FROM scope()})", 0},
	{"all", "SELECT * FROM if(condition=FALSE, then={SELECT @ AS a FROM scope()}, else={SELECT 1 AS o FROM scope()})", 0},
	{"all", "SELECT * FROM if(condition=FALSE, then={SELECT @ AS a FROM scope()})", 0},
	{"all", "SELECT * FROM foreach(row={SELECT * FROM gen(n=0)}, query={SELECT @ AS a FROM scope()})", 0},
	{"all", "SELECT * FROM foreach(row={SELECT * FROM gen(n=3)}, query={SELECT @ AS a FROM scope()})", 3},
	{"all", "SELECT @ AS a FROM gen(n=4) WHERE i = 1 OR i = 3", 2},
	{"all", "SELECT @ AS a FROM gen(n=3) GROUP BY 1", 3},
	{"all", "SELECT @ AS a FROM gen(n=3) WHERE i ORDER BY a", 2},
	{"query qcall", "SELECT * FROM @", 1},
	{"query qcall", "SELECT 1 AS one FROM @", 1},
	{"query qcall", "SELECT * FROM @ LIMIT 0", 0},
	{"query qcall", "SELECT * FROM if(condition=TRUE, then={SELECT * FROM @})", 1},
	{"query qcall", "SELECT * FROM chain(a={SELECT * FROM @}, b={SELECT * FROM @})", 2},
	{"query", "SELECT * FROM if(condition=TRUE, then=X, else=X)", 1},
	{"query", "SELECT * FROM if(condition=FALSE, then=X)", 0},
	{"query", "SELECT * FROM chain(a=X, b=X)", 2},
	{"query", "SELECT * FROM foreach(row=X, query={SELECT c FROM scope()})", 1},
	{"query", "SELECT * FROM foreach(row=X)", 1},
	{"query", "SELECT X.c AS a FROM scope()", 1},
	{"query", "SELECT { SELECT c FROM X } AS a FROM scope() WHERE a", 1},
}

func c06Program(t *T, d c06Def, use string, n int) {
	e := newEnv(t)
	e.scope.AppendFunctions(
		&vfilter.GenericFunction{FunctionName: "ign", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			return 1
		}},
		&vfilter.GenericFunction{FunctionName: "twice", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			arg := &c06Lazy{}
			if arg_parser.ExtractArgsWithContext(ctx, scope, args, arg) != nil {
				return 0
			}
			for i := 0; i < 2; i++ {
				arg.V.Reduce(ctx)
			}
			return 1
		}})
	ref := "X"
	if d.kind == "call" || d.kind == "qcall" {
		ref = "X(p=5)"
	}
	if n < 0 {
		// Reading a lazy argument twice: an expression is evaluated
		// once, a query is passed on unread.
		n = 1
		if !d.eager && (d.kind == "query" || d.kind == "qcall") {
			n = 0
		}
	}
	if d.eager {
		n = 1
	}
	text := d.text + " " + strings.ReplaceAll(use, "@", ref)
	e.query(text)
	settle(t, "program")
	tr := e.takeTrace()
	if got := strings.Count(tr, "d("); got != n {
		t.Fail("definition", "%s: the definition was evaluated %d times instead of %d", text, got, n)
	}
	if strings.Contains(tr, "u(") {
		t.Fail("branch", "%s: an expression whose value is not needed was evaluated: %s", text, tr)
	}
	t.Sig("%d", n)
}

// Consumers that stop reading.
func c06Consumer(t *T, setup, text string, stages, read int) {
	e := newEnv(t)
	stmts := mustParse(t, setup+" "+text)
	for _, s := range stmts[:len(stmts)-1] {
		collect(bg, e.scope, s)
	}
	ctx, cancel := context.WithCancel(bg)
	ch := stmts[len(stmts)-1].Eval(ctx, e.scope)
	for i := 0; i < read; i++ {
		<-ch
	}
	// Give everything time to come to rest.
	time.Sleep(time.Hour)
	tr := e.takeTrace()
	if n := strings.Count(tr, "a("); n > read+4*stages {
		t.Fail("readahead", "%s: %d columns were evaluated after %d rows were read", text, n, read)
	}
	if n := produced(tr, "g"); n > read+5*stages+2 {
		t.Fail("readahead-source", "%s: %d rows were produced after %d rows were read", text, n, read)
	}
	t.Sig("%s", tr)
	cancel()
	vsched.Quiesce()
}

var c06Pipes = []struct {
	setup, text string
	stages      int
}{
	{"", "SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')", 1},
	{"", "SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g') WHERE a >= 0", 1},
	{"LET S = SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')", "SELECT * FROM S", 2},
	{"LET S = SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g') LET U = SELECT * FROM S", "SELECT * FROM U", 3},
	{"LET S(x) = SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')", "SELECT * FROM S(x=1)", 2},
	{"", "SELECT * FROM foreach(row={SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')}, query={SELECT a FROM scope()})", 3},
	{"", "SELECT * FROM foreach(row={SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')})", 2},
	{"", "SELECT * FROM chain(x={SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')})", 2},
	{"", "SELECT * FROM flatten(query={SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')})", 2},
	{"", "SELECT * FROM if(condition=1, then={SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')})", 2},
}

// Expressions that need only the first rows of an endless query, and how many.
var c06Early = []struct {
	text string
	need int
	want string
}{
	{"Q[0].a", 1, "0"}, {"Q[1].a", 2, "1"}, {"Q[2].a", 3, "2"}, {"Q[5].a", 6, "5"},
	{"P(x=1)[2].a", 3, "2"}, {"U[1].a", 2, "1"},
	{"Q AND 1", 1, "true"}, {"if(condition=Q OR fx(v=1, n='a'), then=3)", 1, "3"}, {"NOT Q", 1, "false"},
	{"if(condition=Q, then=3)", 1, "3"},
	{"{ SELECT a FROM Q LIMIT 1 }", 1, "0"},
}

func c06EarlyCheck(t *T, text string, need int, want string) {
	e := newEnv(t)
	e.query("LET Q = SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g') LET U = SELECT a FROM Q LET P(x) = SELECT fx(v=i, n='a') AS a FROM gen(n=-1, name='g')")
	e.takeTrace()
	rows := e.query("SELECT " + text + " AS v FROM scope()")
	expect(t, "early", text, showRows(rows), "{v:"+want+"}")
	vsched.Quiesce()
	tr := e.takeTrace()
	if n := strings.Count(tr, "a("); n > need+8 {
		t.Fail("early-evaluated", "%s evaluated %d rows although %d decide it", text, n, need)
	}
	if n := produced(tr, "g"); n > need+12 {
		t.Fail("early-produced", "%s: %d rows were produced although %d decide it", text, n, need)
	}
	t.Sig("%d", need)
}

func init() {
	register(&Prop{
		ID:    "C06",
		Level: "model_checking",
		Rule:  "the log of evaluated side effects equals (as a multiset) that of a reference evaluator that evaluates exactly what is needed, once",
		Suites: []Suite{
			{
				Name:  "expressions",
				Bound: "all expression trees of depth 1, all of depth 2 with one inner operand (thorough: two) over 4 noted leaves and 7 operators, if() and 4 unary forms, AND/OR chains of 3..4",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					c06Trees(tier, func(name string, x X) bool {
						return y(Case{name, func(t *T) { c06Tree(t, x) }})
					})
				}),
			},
			{
				Name:  "rows",
				Bound: "all column lists up to 3 from 7 columns x 9 WHERE x ungrouped/GROUP BY/ORDER BY x tables up to 2 rows (thorough 3)",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 2
					if tier == Thorough {
						max = 3
					}
					tbs := tables([]*Dict{D("i", int64(0)), D("i", int64(2)), D("j", int64(1))}, 0, max)
					pool := c06Cols()
					n := 0
					seqs(len(pool), 1, 3, func(s []int) bool {
						q := &Q{limit: -1, from: "T"}
						names := map[string]bool{}
						for _, k := range s {
							q.cols = append(q.cols, pool[k])
							if !pool[k].star() {
								if names[pool[k].name()] {
									return true
								}
								names[pool[k].name()] = true
							} else if names["*"] {
								return true
							} else {
								names["*"] = true
							}
						}
						for _, w := range c06Wheres() {
							for m := 0; m < 4; m++ {
								q2 := *q
								q2.where = w
								switch m {
								case 1:
									q2.group = []X{xName("a")}
								case 2:
									q2.order = "a"
								case 3:
									q2.group = []X{xName("i")}
									q2.order = "i"
								}
								if m > 0 && !names["a"] {
									continue
								}
								// All tables for the short lists,
								// one each in turn for the others.
								for k, tb := range tbs {
									n++
									if len(s) == 3 && tier == Quick && k != n%len(tbs) {
										continue
									}
									text := q2.text()
									if !y(Case{fmt.Sprintf("%s over %v", text, showRows(tb)), func(t *T) { c06Rows(t, &q2, tb, text) }}) {
										return false
									}
								}
							}
						}
						return true
					})
				}),
			},
			{
				Name:  "arguments",
				Bound: "14 declared kinds x 11 values x 5 ways of passing x function/plugin x read 0..2 times",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, k := range c06Kinds() {
						for _, v := range c06Vals {
							for _, form := range []string{"V", "[V]", "(V, 3)", "{SELECT V AS c FROM scope()}", "**"} {
								for _, plugin := range []bool{false, true} {
									for reads := 0; reads <= 2; reads++ {
										if !y(Case{fmt.Sprintf("%s %s %s plugin=%v reads=%d", k.name, v, form, plugin, reads),
											func(t *T) { c06Args(t, k, v, reads, form, plugin) }}) {
											return
										}
									}
								}
							}
						}
					}
				}),
			},
			{
				Name:  "definitions",
				Bound: fmt.Sprintf("%d definitions x %d uses", len(c06Defs), len(c06Uses)),
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, d := range c06Defs {
						for _, u := range c06Uses {
							if u.kinds != "all" && !strings.Contains(" "+u.kinds+" ", " "+d.kind+" ") {
								continue
							}
							if !y(Case{d.text + " " + u.text, func(t *T) { c06Program(t, d, u.text, u.n) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "early",
				Bound: fmt.Sprintf("%d expressions that the first rows of an endless query decide", len(c06Early)),
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, c := range c06Early {
						if !y(Case{c.text, func(t *T) { c06EarlyCheck(t, c.text, c.need, c.want) }}) {
							return
						}
					}
				}),
			},
			{
				Name:  "consumers",
				Bound: fmt.Sprintf("%d endless pipelines x consumers that stop after 0..5 rows", len(c06Pipes)),
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, p := range c06Pipes {
						for n := 0; n <= 5; n++ {
							if !y(Case{fmt.Sprintf("%s %s read %d", p.setup, p.text, n), func(t *T) { c06Consumer(t, p.setup, p.text, p.stages, n) }}) {
								return
							}
						}
					}
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			for _, q := range []struct {
				text string
				n    int
			}{
				{"LET Q = SELECT A FROM foreach(row={SELECT * FROM gen(n=2)}, workers=2, query={SELECT A FROM scope()}) SELECT fx(v=7, n='a') AS A FROM scope() WHERE Q.A", 1},
				{"LET X <= fx(v=7, n='a') SELECT * FROM foreach(row={SELECT * FROM gen(n=2)}, workers=2, query={SELECT X FROM scope()})", 1},
				{"SELECT * FROM foreach(row={SELECT fx(v=i, n='a') AS A FROM gen(n=2)}, workers=2, query={SELECT A, A AS B FROM scope() WHERE A OR 1})", 2},
				{"LET S = SELECT fx(v=i, n='a') AS A FROM gen(n=2) SELECT A, A AS B FROM S WHERE A OR 1", 2},
				{"LET S(x) = SELECT x AS A, x AS B FROM gen(n=2) SELECT * FROM foreach(row={SELECT * FROM gen(n=1)}, workers=2, query={SELECT * FROM S(x=fx(v=1, n='a'))})", 1},
			} {
				res = append(res, Scenario{
					Name: q.text, Quick: 1, Thorough: 2,
					Body: func(t *T) {
						e := newEnv(t)
						rows := e.query(q.text)
						tr := e.takeTrace()
						if n := strings.Count(tr, "a("); n != q.n {
							t.Fail("twice", "evaluated %d times instead of %d", n, q.n)
						}
						settle(t, "lazy")
						t.Sig("%d", len(rows))
					},
				})
			}
			return res
		},
	})
}
