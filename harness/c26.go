package main

import (
	"PKG/vsched"
	"context"
	"fmt"
	"log"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	vfilter "REPO"
	"REPO/explain"
	"REPO/grouper"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// The switches.
const (
	c26Explain  = 1 << iota // EXPLAIN with the logging explainer
	c26NoLogger             // no logger at all
	c26Tracer
	c26Materializer
	c26Sorter
	c26Grouper
	c26Throttle
	c26All = 1<<iota - 1
)

type c26Counts struct{ mat, sort, group, ops int32 }

// c26Mat keeps the rows of a query as the default one does.
type c26Mat struct{ c *c26Counts }

type c26Rows struct{ rows []types.Row }

func (m *c26Mat) Materialize(ctx context.Context, scope types.Scope, name string, q types.StoredQuery) types.StoredQuery {
	atomic.AddInt32(&m.c.mat, 1)
	return &c26Rows{types.Materialize(ctx, scope, q)}
}

func (r *c26Rows) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for _, row := range r.rows {
			select {
			case <-ctx.Done():
				return
			case out <- row:
			}
		}
	}()
	return out
}

func (r *c26Rows) Materialize(ctx context.Context, scope types.Scope) types.Any { return r.rows }

type c26RowsAssoc struct{}

func (c26RowsAssoc) Applicable(a, b types.Any) bool { _, ok := a.(*c26Rows); return ok }
func (c26RowsAssoc) GetMembers(scope types.Scope, a types.Any) []string {
	return scope.GetMembers(a.(*c26Rows).rows)
}
func (c26RowsAssoc) Associative(scope types.Scope, a, b types.Any) (types.Any, bool) {
	return scope.Associative(a.(*c26Rows).rows, b)
}

// c26Sort sorts stably, NULL first.
type c26Sort struct{ c *c26Counts }

func (s *c26Sort) Sort(ctx context.Context, scope types.Scope, in <-chan types.Row, key string, desc bool) <-chan types.Row {
	atomic.AddInt32(&s.c.sort, 1)
	out := make(chan types.Row)
	go func() {
		defer close(out)
		var rows []types.Row
		for r := range in {
			rows = append(rows, r)
		}
		less := func(a, b types.Row) bool {
			x, _ := scope.Associative(a, key)
			y, _ := scope.Associative(b, key)
			switch {
			case types.IsNil(x):
				return !types.IsNil(y)
			case types.IsNil(y):
				return false
			}
			return scope.Lt(x, y)
		}
		sort.SliceStable(rows, func(i, j int) bool {
			if desc {
				return less(rows[j], rows[i])
			}
			return less(rows[i], rows[j])
		})
		for _, r := range rows {
			select {
			case <-ctx.Done():
				return
			case out <- r:
			}
		}
	}()
	return out
}

type c26Group struct {
	c *c26Counts
	g grouper.DefaultGrouper
}

func (g *c26Group) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	atomic.AddInt32(&g.c.group, 1)
	return g.g.Group(ctx, scope, actor)
}

type c26Thr struct{ c *c26Counts }

func (t *c26Thr) ChargeOp() { atomic.AddInt32(&t.c.ops, 1) }
func (t *c26Thr) Close()    {}

type c26Sink struct {
	mu vsched.RawMutex
	n  int
}

func (s *c26Sink) Write(b []byte) (int, error) {
	s.mu.Lock()
	s.n++
	s.mu.Unlock()
	return len(b), nil
}

// c26Setup switches things on.
func c26Setup(e *Env, mask int) *c26Counts {
	c := &c26Counts{}
	s := e.scope
	if mask&c26Explain != 0 {
		s.SetExplainer(explain.NewLoggingExplainer(s))
	}
	if mask&c26Tracer != 0 {
		s.SetTracer(log.New(&c26Sink{}, "", 0))
	}
	if mask&c26Materializer != 0 {
		vfilter.GetIntScope(s).SetMaterializer(&c26Mat{c})
		s.AddProtocolImpl(c26RowsAssoc{})
	}
	if mask&c26Sorter != 0 {
		s.SetSorter(&c26Sort{c})
	}
	if mask&c26Grouper != 0 {
		s.SetGrouper(&c26Group{c: c})
	}
	if mask&c26Throttle != 0 {
		vfilter.GetIntScope(s).SetThrottler(&c26Thr{c})
	}
	if mask&c26NoLogger != 0 {
		s.SetLogger(nil)
	}
	return c
}

func c26Name(mask int) string {
	var p []string
	for i, n := range []string{"EXPLAIN", "no logger", "tracer", "materializer", "sorter", "grouper", "throttler"} {
		if mask&(1<<i) != 0 {
			p = append(p, n)
		}
	}
	return strings.Join(p, "+")
}

// c26Add puts EXPLAIN before queries: the last statement, and with deep the
// nested ones too.
func c26Add(stmts []*vfilter.VQL, deep bool) {
	yes := true
	for i, s := range stmts {
		if s.Query != nil && (deep || i == len(stmts)-1) {
			s.Query.Explain = &yes
		}
		if s.StoredQuery != nil && deep {
			s.StoredQuery.Explain = &yes
		}
	}
}

type c26Seen struct {
	rows, trace string
	logs        []string
	counts      *c26Counts
	stats       string
	warn        []string
}

// c26Run runs statements in an environment with switches.
func c26Run(t *T, env func(*T) *Env, text string, mask int) c26Seen {
	e := env(t)
	c := c26Setup(e, mask)
	stmts := mustParse(t, text)
	if mask&c26Explain != 0 {
		c26Add(stmts, mask&c26Tracer != 0)
	}
	before := e.scope.GetStats().Snapshot()
	var sb strings.Builder
	for _, s := range stmts {
		for _, r := range collect(bg, e.scope, s) {
			sb.WriteString(show(r) + ";")
		}
		sb.WriteString("|")
	}
	settle(t, text)
	var logs []string
	for _, l := range e.errorLogs() {
		if i := strings.Index(l, "Current Scope"); i > 0 {
			l = l[:i]
		}
		logs = append(logs, l)
	}
	after := e.scope.GetStats().Snapshot()
	st := ""
	for _, k := range []string{"RowsScanned", "PluginsCalled", "FunctionsCalled"} {
		a, _ := before.Get(k)
		b, _ := after.Get(k)
		st += fmt.Sprintf("%s %d ", k, b.(uint64)-a.(uint64))
	}
	var tr []string
	e.mu.Lock()
	for _, n := range e.trace {
		// When generators are cancelled is not part of the result.
		if !strings.HasPrefix(n, "open-") && !strings.HasPrefix(n, "cancelled-") {
			tr = append(tr, n)
		}
	}
	e.mu.Unlock()
	return c26Seen{rows: sb.String(), trace: strings.Join(tr, " "), logs: logs, counts: c, stats: strings.TrimSpace(st)}
}

// c26Compare compares a run with switches with one without.
func c26Compare(t *T, base c26Seen, env func(*T) *Env, text string, mask int) {
	got := c26Run(t, env, text, mask)
	what := text + " with " + c26Name(mask)
	expect(t, "rows", what, got.rows, base.rows)
	if mask&c26Explain == 0 {
		expect(t, "trace", what, got.trace, base.trace)
		if !strings.Contains(strings.ToUpper(text), "LIMIT") {
			expect(t, "stats", what, got.stats, base.stats)
		}
	}
	if mask&c26NoLogger == 0 {
		expect(t, "logs", what, fmt.Sprintf("%q", got.logs), fmt.Sprintf("%q", base.logs))
	}
	up := strings.ToUpper(text)
	if mask&c26Sorter != 0 && got.counts.sort == 0 && strings.Contains(up, "ORDER BY") && !strings.Contains(up, "LIMIT 0") && len(text) < 150 && base.rows != "" && !strings.Contains(up, "LET ") {
		t.Fail("sorter", "%s: the sorter is not used", what)
	}
	if mask&c26Grouper != 0 && got.counts.group == 0 && strings.Contains(up, "GROUP") && !strings.Contains(up, "LIMIT 0") && len(text) < 150 && !strings.Contains(up, "LET ") {
		t.Fail("grouper", "%s: the grouper is not used", what)
	}
	if mask&c26Materializer != 0 && got.counts.mat == 0 && strings.HasPrefix(text, "LET X <= SELECT") {
		t.Fail("materializer", "%s: the materializer is not used", what)
	}
	if mask&c26Throttle != 0 && got.counts.ops == 0 && strings.Contains(up, "FROM VALS()") && !strings.Contains(up, "LIMIT 0") && !strings.Contains(up, "LET ") {
		t.Fail("throttler", "%s: the throttler is not asked", what)
	}
}

// c26Stat is a query over n rows and what is counted.
type c26Stat struct {
	text                 string
	rows, plugins, funcs func(n int) int
}

func c26Lin(k ...int) func(int) int {
	return func(n int) int {
		r, p := 0, 1
		for _, c := range k {
			r += c * p
			p *= n
		}
		return r
	}
}

// c26Stats: polynomials in the number of rows. (Every row of every FROM
// clause is scanned; every call in FROM of a plugin or a stored query is a
// call of a plugin; every call in an expression is one of a function.)
var c26Stats = []c26Stat{
	{"SELECT i FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0)},
	{"SELECT fx(v=i) AS x FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
	{"SELECT fx(v=fx(v=i)) AS x, fx() AS y FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 3)},
	{"SELECT i FROM gen(n=$) WHERE FALSE", c26Lin(0, 1), c26Lin(1), c26Lin(0)},
	{"SELECT i FROM gen(n=$) WHERE fx(v=i)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
	{"SELECT fx(v=1) AS x FROM gen(n=$) WHERE x", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
	{"SELECT fx(v=1) AS x FROM gen(n=$) WHERE i < 0", c26Lin(0, 1), c26Lin(1), c26Lin(0)},
	{"SELECT if(condition=fx(v=0), then=fx(v=1), else=dict(a=fx(v=2))) AS x FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 4)},
	{"SELECT fx(v=0) AND fx(v=1) AS x, fx(v=1) OR fx(v=1) AS y FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 2)},
	{"SELECT count() AS c, i FROM gen(n=$) GROUP BY fx(v=i)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 2)},
	{"SELECT sum(item=i) AS c FROM gen(n=$) GROUP BY 1", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
	{"SELECT fx(v=i) AS x FROM gen(n=$) ORDER BY x DESC", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
	{"SELECT count() AS c FROM gen(n=$) GROUP BY i ORDER BY c", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
	{"SELECT * FROM foreach(row={ SELECT i FROM gen(n=$) }, query={ SELECT fx(v=i) AS x FROM gen(n=$) })", c26Lin(0, 1, 2), c26Lin(2, 1), c26Lin(0, 0, 1)},
	{"SELECT * FROM foreach(row={ SELECT i FROM gen(n=$) }, workers=3, query={ SELECT fx(v=i) AS x FROM gen(n=$) })", c26Lin(0, 1, 2), c26Lin(2, 1), c26Lin(0, 0, 1)},
	{"SELECT * FROM foreach(row={ SELECT i FROM gen(n=$) })", c26Lin(0, 2), c26Lin(2), c26Lin(0)},
	{"SELECT * FROM chain(a={ SELECT i FROM gen(n=$) }, b={ SELECT fx(v=i) AS x FROM gen(n=$) WHERE FALSE })", c26Lin(0, 3), c26Lin(3), c26Lin(0)},
	{"SELECT * FROM if(condition=fx(v=1), then={ SELECT i FROM gen(n=$) }, else={ SELECT i FROM gen(n=7) })", c26Lin(0, 2), c26Lin(2), c26Lin(1)},
	{"SELECT * FROM flatten(query={ SELECT (1, 2) AS a FROM gen(n=$) })", c26Lin(0, 3), c26Lin(2), c26Lin(0)},
	{"SELECT { SELECT fx(v=j) AS y FROM foreach(row={ SELECT i AS j FROM gen(n=$) }) } AS x FROM gen(n=$)", c26Lin(0, 1, 2), c26Lin(1, 2), c26Lin(0, 0, 1)},
	{"SELECT * FROM range(end=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0)},
	{"SELECT i FROM gen(n=fx(v=$))", c26Lin(0, 1), c26Lin(1), c26Lin(1)},
	{"LET F(x) = fx(v=x) SELECT F(x=i) AS y FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 2)},
	{"LET F(x) = x + 1 SELECT F(x=F(x=i)) AS y FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 2)},
	{"LET Q(x) = SELECT x + i AS y FROM gen(n=$) SELECT * FROM Q(x=1)", c26Lin(0, 2), c26Lin(2), c26Lin(0)},
	{"LET Q(x) = SELECT fx(v=x) AS y FROM gen(n=$) SELECT Q(x=i) AS y FROM gen(n=$)", c26Lin(0, 1, 1), c26Lin(1, 1), c26Lin(0, 1, 1)},
	{"LET Q = SELECT i FROM gen(n=$) SELECT * FROM Q", c26Lin(0, 2), c26Lin(1), c26Lin(0)},
	{"LET Q <= SELECT i FROM gen(n=$) SELECT * FROM Q", c26Lin(0, 2), c26Lin(1), c26Lin(0)},
	{"LET Q <= SELECT fx(v=i) AS i FROM gen(n=$) SELECT i FROM chain(a=Q, b=Q)", c26Lin(0, 3), c26Lin(2), c26Lin(0, 1)},
	{"LET V <= fx(v=3) SELECT V, i FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(1)},
	{"SELECT -fx(v=i) AS x, NOT fx(v=i) AS y FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 2)},
	{"SELECT dict(a=fx(v=i)).a AS x, (fx(v=1), fx(v=2))[0] AS y FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 4)},
	{"SELECT *, fx(v=i) AS x FROM gen(n=$)", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
	{"SELECT fx(v=i) AS x, i + 1 AS y FROM gen(n=$) WHERE x + 1 AND y", c26Lin(0, 1), c26Lin(1), c26Lin(0, 1)},
}

func c26StatCheck(t *T, s c26Stat, n, mask int) {
	text := strings.ReplaceAll(s.text, "$", fmt.Sprint(n))
	got := c26Run(t, newEnv, text, mask)
	want := fmt.Sprintf("RowsScanned %d PluginsCalled %d FunctionsCalled %d", s.rows(n), s.plugins(n), s.funcs(n))
	expect(t, "stats", text+" with "+c26Name(mask), got.stats, want)
	if mask&c26Throttle != 0 {
		expect(t, "charged", text, fmt.Sprint(got.counts.ops), fmt.Sprint(s.rows(n)))
	}
	if len(got.logs) > 0 {
		t.Fail("log", "%s logs %q", text, got.logs)
	}
	t.Sig("%s", got.stats)
}

// c26Clean are correct statements: nothing is to be reported. $ is the
// number of rows.
var c26Clean = []string{
	"LET f(x, y=2) = x + y SELECT f(x=1) AS r FROM scope()", "LET f(x=1, y=2) = x + y SELECT f() AS r, f(y=3) AS s, f(x=i, y=i) AS u FROM gen(n=2)", "LET f(x=1) = x SELECT f AS r FROM scope()",
	"LET q(n=2) = SELECT i FROM gen(n=n) SELECT * FROM q()", "LET q(n=2, m) = SELECT i + m AS i FROM gen(n=n) SELECT * FROM q(m=1)", "LET q(n=2) = SELECT i FROM gen(n=n) SELECT q() AS r, q(n=1) AS s FROM scope()", "LET q(n=2) = SELECT i FROM gen(n=n) SELECT * FROM chain(a=q(), b={ SELECT * FROM q(n=1) })",
	"LET q(n=2) = SELECT i FROM gen(n=n) SELECT * FROM foreach(row={ SELECT i AS n FROM gen(n=2) }, query=q)", "LET q(n=2) = SELECT i FROM gen(n=n) SELECT * FROM if(condition=1, then={ SELECT * FROM q() })", "LET q(n) = SELECT i FROM gen(n=n) SELECT * FROM foreach(row={ SELECT 2 AS n FROM scope() }, query={ SELECT * FROM q(n=n) })",
	"LET g(f) = f + 1 LET h(x) = g(f=x) SELECT h(x=1) AS r FROM scope()", "LET f(x) = if(condition=x > 0, then=f(x=x - 1), else='done') SELECT f(x=3) AS r FROM scope()", "LET `a b`(`c d`) = `c d` SELECT `a b`(`c d`=3) AS r FROM scope()",
	"LET x = NULL SELECT x, x.y AS z FROM scope()", "LET d = dict(a=1) SELECT d.a, d.b, d.b.c, d['a'] AS e FROM scope()", "LET l = (1, 2) SELECT l[0] AS a, l[9] AS b, l[0:1] AS c FROM scope()", "SELECT NULL + 1 AS a, 1 / 0 AS b, 'a' * 2 AS c, 'a' - 1 AS d, NULL = NULL AS e, 'a' < 1 AS f, 1 IN (1, 2) AS g, 'abc' =~ 'B' AS h FROM scope()",
	"SELECT i, count() AS c, sum(item=i) AS s, min(item=i) AS m, max(item=i) AS x, enumerate(items=i) AS e FROM gen(n=3) GROUP BY i / 2 ORDER BY c DESC LIMIT 2", "SELECT * FROM gen(n=0)", "SELECT * FROM gen(n=3) WHERE i ORDER BY i DESC LIMIT 1", "SELECT i FROM gen(n=3) LIMIT 0",
	"SELECT timestamp(epoch=1) AS a, split(string='a,b', sep=',') AS b, format(format='%v', args=1) AS c, len(list=(1, 2)) AS d, get(item=dict(a=1), member='a') AS e, encode(string='a', type='hex') AS f FROM scope()",
	"SELECT get(item=dict(a=1), member='b.c') AS e FROM scope()", "SELECT * FROM flatten(query={ SELECT (1, 2) AS a, NULL AS b FROM scope() })", "SELECT * FROM range(start=1, end=3)", "SELECT * FROM foreach(row=(1, 2), query={ SELECT _value AS v FROM scope() })", "SELECT * FROM foreach(row=dict(a=1))", "SELECT * FROM foreach(row={ SELECT dict(k=i) AS d FROM gen(n=2) }, column='d')",
	"SELECT * FROM foreach(row={ SELECT i FROM gen(n=3) }, query={ SELECT i + 1 AS j FROM scope() }, workers=2)", "LET t <= SELECT i FROM gen(n=3) SELECT * FROM t WHERE i IN t.i", "LET a = 1 LET b = a + 1 LET c(x) = x + b SELECT c(x=a) AS r FROM scope()", "LET x <= fx(v=1) LET y <= SELECT x AS z FROM scope() SELECT y.z, y[0].z AS w FROM scope()",
	"SELECT { SELECT i FROM gen(n=2) } AS a, { SELECT i, 1 AS k FROM gen(n=2) } AS b FROM scope()", "SELECT i AS a, i + 1 AS b, i + 2 AS c FROM gen(n=2) WHERE c > 2 AND a + b", "SELECT *, i + 1 AS j FROM gen(n=2)", "SELECT if(condition=i, then={ SELECT i FROM gen(n=1) }, else=5) AS x FROM gen(n=2)", "SELECT -i AS a, NOT i AS b, -1 AS c FROM gen(n=2)",
	"/* c */ SELECT 1 -- x\n AS a FROM scope() // y\n", "SELECT '''a\nb''' AS a, \"\\x41\" AS b, 0x10 AS c, 1e3 AS d, TRUE AS e FROM scope()", "SELECT scope() AS s FROM scope() WHERE FALSE", "SELECT dict(`a b`=1, c=dict(d=[1, 2])) AS d FROM scope()", "LET F = dict(a=1) SELECT F.a + F.a AS x FROM gen(n=2) GROUP BY F.a",
	"LET q = SELECT count() AS c FROM gen(n=3) SELECT c FROM q", "LET q(x=5) = SELECT x AS c FROM gen(n=1) LET r = q(x=1) SELECT * FROM r", "LET f(q) = SELECT * FROM q SELECT * FROM f(q={ SELECT i FROM gen(n=2) })", "LET f(x={ SELECT i FROM gen(n=2) }) = SELECT * FROM x SELECT * FROM f()", "LET f(x=[1, 2], y=[]) = (x, y) SELECT f() AS r FROM scope()",
}

func c26CleanCheck(t *T, text string, mask int) {
	got := c26Run(t, newEnv, text, mask)
	for _, l := range got.logs {
		t.Fail("clean", "%s with %s logs %q", text, c26Name(mask), l)
	}
	t.Sig("%s", got.rows)
}

func c26Hash(text string) int {
	h := 0
	for _, c := range text {
		h = h*31 + int(c)
	}
	return (h>>7 ^ h) & (1<<30 - 1)
}

// c26Callback lets the application call what the query gives it: the
// defaults of its parameters apply and nothing is reported.
func c26Callback(t *T, params, args string, query bool) {
	def, give := map[string]bool{}, map[string]bool{}
	var ps, sum []string
	for i, c := range params {
		n := string(rune('x' + i))
		if c == 'd' {
			def[n] = true
			ps = append(ps, fmt.Sprintf("%s=%d", n, 10*(i+1)))
		} else {
			ps = append(ps, n)
		}
		sum = append(sum, n)
	}
	d := D()
	for _, c := range args {
		give[string(c)] = true
		d.Set(string(c), int64(1000*(c-'w')))
	}
	want, bad := "", false
	var vals []string
	for i := range params {
		n := string(rune('x' + i))
		switch {
		case give[n]:
			vals = append(vals, fmt.Sprint(1000*(i+1)))
		case def[n]:
			vals = append(vals, fmt.Sprint(10*(i+1)))
		default:
			bad = true
		}
	}
	for n := range give {
		if n[0] >= byte('x'+len(params)) {
			bad = true
		}
	}
	want = "[" + strings.Join(vals, ",") + "]"
	e := newEnv(t)
	l := "(" + strings.Join(sum, ", ") + ")"
	if len(sum) == 1 {
		l = "(" + sum[0] + ", )"
	}
	text := "LET f(" + strings.Join(ps, ", ") + ") = " + l
	if query {
		text = "LET f(" + strings.Join(ps, ", ") + ") = SELECT " + l + " AS r FROM scope()"
	}
	e.query(text)
	f, _ := e.scope.Resolve("f")
	what := fmt.Sprintf("%s called with %s", text, show(d))
	var got any
	if query {
		q := f.(interface {
			Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row
		})
		n := 0
		for r := range q.Call(bg, e.scope, d) {
			got, _ = rowDict(bg, e.scope, r).Get("r")
			n++
		}
		if n != 1 {
			t.Fail("callback", "%s: %d rows", what, n)
		}
	} else {
		got = lazyless(bg, e.scope, f.(types.StoredExpression).(interface {
			Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any
		}).Call(bg, e.scope, d))
	}
	settle(t, what)
	logs := e.errorLogs()
	if !bad {
		expect(t, "callback", what, show(got), want)
		if len(logs) > 0 {
			t.Fail("callback:log", "%s: logs %q", what, logs)
		}
	} else if len(logs) == 0 {
		t.Fail("callback:silent", "%s: nothing is logged", what)
	}
	t.Sig("%s %v", show(got), bad)
}

// c26Odd runs queries over rows and arguments of any kind with and without
// EXPLAIN.
func c26Odd(t *T, name string, mk func() any, mask int) {
	texts := []string{
		"SELECT * FROM src()", "SELECT fx(v=v) AS x FROM scope()", "SELECT v AS x, 1 AS y FROM scope() WHERE x = v OR TRUE", "SELECT len(list=v) AS x, dict(a=v) AS y FROM scope()", "SELECT k, _value FROM src()", "SELECT * FROM foreach(row=v, query={ SELECT k, _value, fx(v=_value) AS z FROM scope() })",
		"SELECT * FROM foreach(row={ SELECT v AS a FROM scope() }, column='a')", "SELECT * FROM chain(a=v, b={ SELECT v AS b FROM scope() })", "LET t <= SELECT v AS a FROM scope() SELECT * FROM t", "SELECT v AS a, count() AS c FROM scope() GROUP BY 1 ORDER BY a",
	}
	for _, text := range texts {
		env := func(t *T) *Env {
			e := newEnv(t).set("v", mk())
			e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "src", Function: listRows(func() []types.Row { return []types.Row{mk(), D("k", mk())} })})
			return e
		}
		if name == "nil" && strings.Contains(text, "src()") {
			continue
		}
		base := c26Run(t, env, text, 0)
		got := c26Run(t, env, text, mask)
		if strings.Contains(base.rows, "0x") {
			// (Addresses.)
			t.Sig("addr")
			continue
		}
		expect(t, "odd", fmt.Sprintf("%s with %s and v = %s", text, c26Name(mask), name), got.rows, base.rows)
		t.Sig("%s", trunc(base.rows, 60))
	}
}

// c26Msgs: what EXPLAIN says about rejected rows is what is in the query.
func c26Msgs(t *T, where string) {
	e := newEnv(t)
	e.scope.SetExplainer(explain.NewLoggingExplainer(e.scope))
	text := "EXPLAIN SELECT i FROM gen(n=1) WHERE " + where
	stmts := mustParse(t, text)
	rows := collect(bg, e.scope, stmts[0])
	settle(t, text)
	if len(rows) > 0 {
		return
	}
	want := "DEBUG: REJECTED by " + vfilter.FormatToString(e.scope, stmts[0].Query.Where)
	ok := false
	for _, l := range e.logs {
		ok = ok || l == want
	}
	if !ok {
		t.Fail("explain", "%s: no message %q in %q", text, want, e.logs)
	}
	t.Sig("%s", where)
}

var c26Shapes = []string{
	"SELECT fx(v=i, n='x') AS x FROM gen(n=3) WHERE x != 1 ORDER BY x DESC", "SELECT i, count() AS c FROM gen(n=4) GROUP BY i = 1 ORDER BY c", "SELECT i FROM gen(n=3) LIMIT 2", "LET q(x) = SELECT i + x AS y FROM gen(n=2) SELECT * FROM q(x=1)",
	"LET q(x) = SELECT i + x AS y FROM gen(n=2) WHERE i SELECT q(x=i) AS z FROM gen(n=2)", "LET t <= SELECT fx(v=i, n='t') AS i FROM gen(n=3) SELECT * FROM t WHERE i > 0", "LET t <= SELECT i FROM gen(n=3) ORDER BY i DESC SELECT t.i AS l, t[0].i AS f FROM scope()",
	"SELECT * FROM foreach(row={ EXPLAIN SELECT i FROM gen(n=2) WHERE i }, query={ EXPLAIN SELECT fx(v=i, n='x') AS x FROM scope() })", "SELECT { EXPLAIN SELECT i FROM gen(n=2) WHERE i < 1 } AS s, i FROM gen(n=2)", "SELECT * FROM chain(a={ EXPLAIN SELECT i FROM gen(n=1) }, b={ SELECT i FROM gen(n=2) ORDER BY i DESC })",
	"LET f(x) = fx(v=x, n='f') SELECT f(x=i) AS y, if(condition=i, then=f(x=5), else={ EXPLAIN SELECT * FROM gen(n=1) }) AS z FROM gen(n=2)", "SELECT * FROM flatten(query={ EXPLAIN SELECT (1, 2) AS a, i FROM gen(n=2) })", "SELECT * FROM if(condition=fx(v=1, n='c'), then={ EXPLAIN SELECT i FROM gen(n=2) LIMIT 1 })",
	"LET q = SELECT i FROM gen(n=1) SELECT i FROM gen(n=2) WHERE i IN q.i", "SELECT dict(a={ EXPLAIN SELECT i FROM gen(n=2) GROUP BY i }) AS d FROM scope()", "SELECT enumerate(items=i) AS e, sum(item=i) AS s FROM gen(n=3) WHERE i GROUP BY 1", "SELECT sum(item=i) AS s FROM gen(n=3)", "LET X <= SELECT count() AS c FROM gen(n=2) SELECT c, fx(v=c, n='x') AS d FROM X",
	"SELECT nosuch, fx(v=i, nosuch=1) AS x FROM gen(n=2)", "SELECT * FROM gen(nosuch=2)", "SELECT * FROM nosuch(a=1)", "SELECT split(string='a', sep='(') AS x FROM scope()",
}

// c26Throttled runs a query under the time throttler, possibly closed while
// it runs.
func c26Throttled(t *T, text string, rate float64, closeAt int) {
	want := showRows(newEnv(t).query(text))
	e := newEnv(t)
	thr := vfilter.NewTimeThrottler(rate)
	vfilter.GetIntScope(e.scope).SetThrottler(thr)
	var wg sync.WaitGroup
	if closeAt >= 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			vsched.Sleep(time.Duration(closeAt) * time.Millisecond)
			thr.Close()
		}()
	}
	got := showRows(e.query(text))
	wg.Wait()
	what := fmt.Sprintf("%s throttled to %v, closed after %d ms", text, rate, closeAt)
	expect(t, "throttled", what, got, want)
	thr.Close()
	thr.Close()
	settle(t, what)
	t.Sig("%s", got)
}

// c26Reader changes every row it gets under EXPLAIN: only its own are changed,
// and the messages are about what was found.
func c26Reader(t *T, text string) {
	e := newEnv(t)
	e.scope.SetExplainer(explain.NewLoggingExplainer(e.scope))
	stmts := mustParse(t, text)
	c26Add(stmts, true)
	n := 0
	for _, s := range stmts {
		for r := range s.Eval(bg, e.scope) {
			d := r.(*ordereddict.Dict)
			v, _ := d.Get("d")
			expect(t, "reader", text, show(v), fmt.Sprintf("{a:%d}", n))
			n++
			if x, ok := v.(*ordereddict.Dict); ok {
				x.Set("a", "changed")
				x.Set("b", "added")
			}
			d.Set("z", "added")
			d.Delete("i")
		}
	}
	settle(t, text)
	e.mu.Lock()
	for _, l := range e.logs {
		if strings.Contains(l, "added") || strings.Contains(l, "changed") {
			t.Fail("reader:explained", "%s: %s", text, l)
		}
	}
	e.mu.Unlock()
	t.Sig("%d", n)
}

func init() {
	modes := []int{c26All &^ c26NoLogger, c26Explain, c26All, c26Tracer | c26Materializer | c26Sorter | c26Grouper | c26Throttle}
	register(&Prop{
		ID:    "C26",
		Level: "model_checking",
		Rule:  "the rows of a query are the same under every combination of EXPLAIN, logger, tracer, custom materialiser, sorter, grouper and throttler; without EXPLAIN the functions called and the statistics too; the statistics are the counts of rows, plugins and functions; correct queries report nothing",
		Suites: []Suite{
			{
				Name: "pool", NoRace: true,
				Bound: "every fourth statement of the pool with one of (thorough: every statement with each of) 4 combinations of switches that switch each one on and off, and with one more of the 128 combinations",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(tier, poolStmts, y, func(t *T, text string) {
						if _, err := vfilter.MultiParse(text); err != nil {
							t.Sig("invalid")
							return
						}
						h := c26Hash(text)
						if tier == Quick && h%4 != 0 {
							t.Sig("thorough")
							return
						}
						base := c26Run(t, poolEnv, text, 0)
						ms := []int{modes[h/4%4], h / 16 % (c26All + 1)}
						if tier == Thorough {
							ms = append(append([]int{}, modes...), h/16%(c26All+1))
						}
						for _, m := range ms {
							c26Compare(t, base, poolEnv, text, m)
						}
						t.Sig("%s", trunc(base.rows, 40))
					})
				}),
			},
			{
				Name: "combinations", NoRace: true,
				Bound: "22 query shapes with EXPLAIN on each level x all 128 combinations of the switches",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, text := range append(append([]string{}, c26Shapes...), c26Clean...) {
						for mask := 1; mask <= c26All; mask++ {
							if !y(Case{fmt.Sprintf("%s with %s", text, c26Name(mask)), func(t *T) {
								plain := strings.ReplaceAll(text, "EXPLAIN ", "")
								base := c26Run(t, newEnv, plain, 0)
								c26Compare(t, base, newEnv, text, mask)
								if mask == c26Explain {
									// Without an explainer.
									s := c26Run(t, newEnv, text, 0)
									expect(t, "rows", text, s.rows, base.rows)
								}
								t.Sig("%s", trunc(base.rows, 40))
							}}) {
								return
							}
						}
					}
				}),
			},
			{
				Name: "statistics", Policies: 4, NoRace: true,
				Bound: "34 query shapes over 0..5 rows x 6 combinations of the switches: rows scanned, plugins and functions called and operations charged, as polynomials of the number of rows",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, s := range c26Stats {
						for n := 0; n < 6; n++ {
							for _, m := range []int{0, c26NoLogger, c26Tracer, c26Materializer | c26Throttle, c26Sorter | c26Grouper | c26Throttle, c26Explain} {
								if !y(Case{fmt.Sprintf("%s n=%d %s", s.text, n, c26Name(m)), func(t *T) { c26StatCheck(t, s, n, m) }}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name: "correct queries", Policies: 4,
				Bound: "50 correct programs (definitions with defaults in every use, lambdas, every clause, operator, builtin) x 4 combinations of the switches: nothing is reported",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, s := range c26Clean {
						for _, m := range append([]int{0}, modes[:2]...) {
							if !y(Case{fmt.Sprintf("%s with %s", s, c26Name(m)), func(t *T) { c26CleanCheck(t, s, m) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "callbacks",
				Bound: "stored expressions and queries with 1..3 parameters, each with a default or not, called by the application with every subset of the arguments and an unknown one: defaults apply, only missing and unknown arguments are reported",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, params := range []string{"p", "d", "pp", "pd", "dp", "dd", "ppp", "ppd", "pdp", "dpp", "pdd", "dpd", "ddp", "ddd"} {
						for m := 0; m < 16; m++ {
							args := ""
							for i := 0; i < 4; i++ {
								if m&(1<<i) != 0 {
									args += string(rune('x' + i))
								}
							}
							if strings.Contains(args, "{") {
								args = strings.ReplaceAll(args, "{", "~")
							}
							if len(params) < 3 && strings.ContainsAny(args, "~") {
								continue
							}
							for _, q := range []bool{false, true} {
								if !y(Case{fmt.Sprintf("%s %s %v", params, args, q), func(t *T) { c26Callback(t, params, args, q) }}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "any rows",
				Bound: "rows, columns and arguments of 88 kinds of Go values in 10 queries, with EXPLAIN and with all switches",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := c22Vals()
					for k := range vals {
						for _, m := range modes[:2] {
							if !y(Case{fmt.Sprintf("%s with %s", vals[k].name, c26Name(m)), func(t *T) { c26Odd(t, vals[k].name, func() any { return c22Vals()[k].v }, m) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "messages",
				Bound: "12 conditions",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, w := range []string{"i > 1", "'a%d' = i", "i = '%'", "'%s %v' =~ 'x'", "FALSE", "i AND fx(v='100%')", "i IN (3, '%%')", "NOT 1", "i = 5 OR '%[2]d' = 1", "nosuch", "'''%\n''' = 1", "NULL"} {
						if !y(Case{w, func(t *T) { c26Msgs(t, w) }}) {
							return
						}
					}
				}),
			},
			{
				Name: "time throttler", Policies: 2, NoRace: true,
				Bound: "8 queries x 6 rates x closed before, during (5 moments) and after",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, text := range c26Shapes[:8] {
						for _, rate := range []float64{0, 0.5, 1, 10, 99, 1000} {
							for _, at := range []int{-1, 0, 1, 100, 1000, 1500, 5000} {
								if float64(at)*rate > 20000 {
									continue
								}
								if !y(Case{fmt.Sprintf("%s rate %v close %d", text, rate, at), func(t *T) { c26Throttled(t, text, rate, at) }}) {
									return
								}
							}
						}
					}
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			for _, text := range c26Shapes[:18] {
				for _, mask := range []int{c26All &^ c26NoLogger, c26Explain} {
					plain := strings.ReplaceAll(text, "EXPLAIN ", "")
					res = append(res, Scenario{
						Name: fmt.Sprintf("%s with %s", text, c26Name(mask)), Quick: 1, Thorough: 2, Policies: 2, RaceBase: true,
						Body: func(t *T) {
							got := c26Run(t, newEnv, text, mask)
							t.data = got
							t.Sig("%s", got.rows)
							_ = plain
						},
						Same: func(t, base *T) {
							a, _ := t.data.(c26Seen)
							b, _ := base.data.(c26Seen)
							expect(t, "schedule", text+" with "+c26Name(mask), a.rows, b.rows)
						},
					})
				}
			}
			for _, s := range c26Stats {
				if !strings.Contains(s.text, "foreach") && !strings.Contains(s.text, "LET") && !strings.Contains(s.text, "chain") {
					continue
				}
				res = append(res, Scenario{
					Name: "statistics: " + s.text, Quick: 1, Thorough: 2, Policies: 2, RaceBase: true,
					Body: func(t *T) { c26StatCheck(t, s, 2, c26Throttle) },
				})
			}
			// Rows belong to whoever got them.
			for _, text := range []string{"SELECT i, dict(a=i) AS d FROM gen(n=2)", "SELECT i, dict(a=i) AS d FROM gen(n=2) WHERE d", "SELECT * FROM foreach(row={ SELECT dict(a=i) AS d FROM gen(n=2) })", "SELECT dict(a=i) AS d FROM gen(n=2) ORDER BY i", "SELECT dict(a=i) AS d FROM gen(n=2) GROUP BY i", "LET t <= SELECT dict(a=i) AS d FROM gen(n=2) SELECT * FROM t"} {
				res = append(res, Scenario{
					Name: "reader changes the rows of " + text, Quick: 1, Thorough: 2, Policies: 2, RaceBase: true,
					Body: func(t *T) { c26Reader(t, text) },
				})
			}
			for _, rate := range []float64{1, 10} {
				for _, text := range c26Shapes[:3] {
					res = append(res, Scenario{
						Name: fmt.Sprintf("throttled to %v: %s", rate, text), Quick: 1, Thorough: 2, Policies: 2, RaceBase: true, EarlyTimers: true, MaxTimers: 40,
						Body: func(t *T) { c26Throttled(t, text, rate, 100) },
					})
				}
			}
			return res
		},
	})
}
