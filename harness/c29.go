package main

import (
	"PKG/vsched"
	"context"
	"fmt"
	"log"
	"sort"
	"strings"
	"sync"

	vfilter "REPO"
	"REPO/arg_parser"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// c29World: four related scopes and what was seen from the outside.
type c29World struct {
	t *T
	// root, p (a child of root), c (a child of p) and d (another)
	scopes [4]types.Scope
	mu     sync.Mutex
	events []string
	lmu    vsched.RawMutex
	logs   []string
	made   []types.Scope
	query  *vfilter.VQL
	let    *vfilter.VQL
	stored *vfilter.VQL
	lambda *vfilter.Lambda
	order  *vfilter.VQL
	group  *vfilter.VQL
	mat    *vfilter.VQL
	expl   *vfilter.VQL
	call   *vfilter.VQL
	sub    *vfilter.VQL
}

func (w *c29World) note(f string, a ...any) {
	w.mu.Lock()
	w.events = append(w.events, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

type c29Sink struct {
	w    *c29World
	name string
}

func (s c29Sink) Write(b []byte) (int, error) {
	s.w.lmu.Lock()
	s.w.logs = append(s.w.logs, s.name+": "+strings.TrimRight(string(b), "\n"))
	s.w.lmu.Unlock()
	return len(b), nil
}

// c29Fn describes itself with the help of the scope, as functions that
// check what else is there do.
type c29Fn struct{ name string }

func (f c29Fn) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return f.name
}
func (f c29Fn) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	scope.Log("describing %s", f.name)
	_, ok := scope.GetFunction("len")
	if !ok || scope.GetLogger() == nil {
		scope.Log("odd")
	}
	return &types.FunctionInfo{Name: f.name, ArgType: tm.AddType(scope, &genArgs{})}
}
func (f c29Fn) Copy() types.FunctionInterface { return f }

type c29Plugin struct{ name string }

func (f c29Plugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	return listOf(D("plug", f.name))
}
func (f c29Plugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	scope.Log("describing %s", f.name)
	_, ok := scope.GetPlugin("range")
	if !ok || scope.GetLogger() == nil {
		scope.Log("odd")
	}
	return &types.PluginInfo{Name: f.name, ArgType: tm.AddType(scope, &genArgs{})}
}

func listOf(rows ...types.Row) <-chan types.Row {
	out := make(chan types.Row, len(rows))
	for _, r := range rows {
		out <- r
	}
	close(out)
	return out
}

type c29Sorter struct{ w *c29World }

func (s c29Sorter) Sort(ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) <-chan types.Row {
	s.w.note("sorter %s", key)
	return input
}

type c29Grouper struct{ w *c29World }

func (s c29Grouper) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	s.w.note("grouper")
	for {
		if _, _, _, _, err := actor.GetNextRow(ctx, scope); err != nil {
			return listOf(D("a", "grouped"))
		}
	}
}

type c29Mat struct{ w *c29World }

func (s c29Mat) Materialize(ctx context.Context, scope types.Scope, name string, q types.StoredQuery) types.StoredQuery {
	s.w.note("materializer %s", name)
	return q
}

type c29Expl struct{ w *c29World }

func (s c29Expl) StartQuery(interface{})                                {}
func (s c29Expl) PluginOutput(interface{}, types.Row)                   {}
func (s c29Expl) SelectOutput(types.Row)                                { s.w.note("explained row") }
func (s c29Expl) ParseArgs(a *ordereddict.Dict, r interface{}, e error) {}
func (s c29Expl) RejectRow(interface{})                                 {}
func (s c29Expl) Log(string)                                            {}

// c29Row is a row whose members depend on a scope.
type c29Row struct{ scope types.Scope }

type c29RowProtocol struct{}

func (c29RowProtocol) Applicable(a types.Any, b types.Any) bool {
	_, ok := a.(c29Row)
	return ok
}
func (c29RowProtocol) GetMembers(scope types.Scope, a types.Any) []string {
	if a.(c29Row).scope.IsClosed() || scope.IsClosed() {
		return []string{"gone"}
	}
	return []string{"here"}
}
func (c29RowProtocol) Associative(scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
	if b == "here" {
		return a.(c29Row).scope.GetContext("k")
	}
	return nil, false
}

func newC29(t *T) *c29World {
	w := &c29World{t: t}
	root := vfilter.NewScope()
	root.SetLogger(log.New(c29Sink{w, "log"}, "", 0))
	root.AddProtocolImpl(c29RowProtocol{})
	root.AppendVars(D("x", int64(1)))
	p := root.Copy()
	p.AppendVars(D("w", int64(5)))
	c, d := p.Copy(), p.Copy()
	p.AppendVars(c29Row{p})
	c.AppendVars(c29Row{c})
	w.scopes = [4]types.Scope{root, p, c, d}
	for i, s := range w.scopes {
		i, s := i, s
		s.AddDestructor(func() { w.note("destructor of %d", i) })
	}
	one := func(s string) *vfilter.VQL { return mustParse(t, s)[0] }
	w.query = one("SELECT x, x + 1 AS y FROM scope() WHERE x > 0")
	w.call = one("SELECT fnew() AS f FROM scope()")
	w.let = one("LET z = x + 1")
	w.stored = one("SELECT 1 AS one FROM scope()")
	w.order = one("SELECT x AS a FROM scope() ORDER BY a")
	w.group = one("SELECT x AS a, count() AS n FROM scope() GROUP BY x")
	w.mat = one("LET m <= SELECT x FROM scope()")
	w.expl = one("EXPLAIN SELECT x FROM scope()")
	w.sub = one("SELECT { SELECT x AS a FROM scope() } AS s FROM scope()")
	w.lambda, _ = vfilter.ParseLambda("q => q + x")
	return w
}

func (w *c29World) own(s types.Scope) types.Scope {
	w.mu.Lock()
	w.made = append(w.made, s)
	w.mu.Unlock()
	return s
}

func c29Resolve(s types.Scope, name string) string {
	v, ok := s.Resolve(name)
	if !ok {
		return "-"
	}
	return show(lazyless(bg, s, v))
}

func c29Has(v any, ok bool) string {
	if ok {
		return "yes"
	}
	return "no"
}

type c29Op struct {
	name string
	run  func(w *c29World, s types.Scope) string
}

type c29Args struct {
	V string `vfilter:"required,field=v"`
}

func c29Query(w *c29World, s types.Scope, q *vfilter.VQL) string { return showRows(collect(bg, s, q)) }

var c29Ops = []c29Op{
	{"Resolve(x)", func(w *c29World, s types.Scope) string { return c29Resolve(s, "x") }},
	{"AppendVars(x=2)", func(w *c29World, s types.Scope) string { s.AppendVars(D("x", int64(2))); return "" }},
	{"AppendVars(y=3)", func(w *c29World, s types.Scope) string { s.AppendVars(D("y", int64(3))); return "" }},
	{"Resolve(y)", func(w *c29World, s types.Scope) string { return c29Resolve(s, "y") }},
	{"Copy", func(w *c29World, s types.Scope) string {
		c := w.own(s.Copy())
		return c29Resolve(c, "x") + c29Resolve(c, "y")
	}},
	{"Copy with a destructor", func(w *c29World, s types.Scope) string {
		c := s.Copy()
		if c.AddDestructor(func() { w.note("destructor of a copy") }) != nil {
			// It was closed meanwhile.
			w.note("destructor of a copy")
		}
		w.own(c)
		return ""
	}},
	{"Copy and close", func(w *c29World, s types.Scope) string {
		c := s.Copy()
		c.AddDestructor(func() { w.note("destructor of a closed copy") })
		c.Close()
		return fmt.Sprint(c.IsClosed())
	}},
	{"Close", func(w *c29World, s types.Scope) string { s.Close(); return "" }},
	{"AddDestructor", func(w *c29World, s types.Scope) string {
		return fmt.Sprint(s.AddDestructor(func() { w.note("destructor") }))
	}},
	{"IsClosed", func(w *c29World, s types.Scope) string { return fmt.Sprint(s.IsClosed()) }},
	{"SetContext(k, 1)", func(w *c29World, s types.Scope) string { s.SetContext("k", 1); return "" }},
	{"SetContext(k, 2)", func(w *c29World, s types.Scope) string { s.SetContext("k", 2); return "" }},
	{"GetContext(k)", func(w *c29World, s types.Scope) string { v, ok := s.GetContext("k"); return show(v) + c29Has(v, ok) }},
	{"NewScope", func(w *c29World, s types.Scope) string {
		n := w.own(s.NewScope())
		f, fok := n.GetFunction("fnew")
		p, pok := n.GetPlugin("pnew")
		n.SetContext("k", 7)
		n.AppendFunctions(c29Fn{"fother"})
		return c29Resolve(n, "x") + " " + c29Has(f, fok) + c29Has(p, pok)
	}},
	{"AppendFunctions", func(w *c29World, s types.Scope) string { s.AppendFunctions(c29Fn{"fnew"}); return "" }},
	{"GetFunction", func(w *c29World, s types.Scope) string { f, ok := s.GetFunction("fnew"); return c29Has(f, ok) }},
	{"AppendPlugins", func(w *c29World, s types.Scope) string { s.AppendPlugins(c29Plugin{"pnew"}); return "" }},
	{"GetPlugin", func(w *c29World, s types.Scope) string { f, ok := s.GetPlugin("pnew"); return c29Has(f, ok) }},
	{"GetSimilarPlugins", func(w *c29World, s types.Scope) string { return strings.Join(s.GetSimilarPlugins("pnew_x"), ",") }},
	{"Describe", func(w *c29World, s types.Scope) string {
		var r []string
		d := s.Describe(types.NewTypeMap())
		for _, f := range d.Functions {
			r = append(r, f.Name)
		}
		for _, p := range d.Plugins {
			r = append(r, p.Name)
		}
		sort.Strings(r)
		return strings.Join(r, " ")
	}},
	{"Log", func(w *c29World, s types.Scope) string { s.Log("message %d", 1); return "" }},
	{"Warn", func(w *c29World, s types.Scope) string { s.Warn("w %d", 1); return "" }},
	{"SetLogger", func(w *c29World, s types.Scope) string {
		s.SetLogger(log.New(c29Sink{w, "other log"}, "", 0))
		return ""
	}},
	{"SetTracer", func(w *c29World, s types.Scope) string {
		s.SetTracer(log.New(c29Sink{w, "tracer"}, "", 0))
		return ""
	}},
	{"Trace", func(w *c29World, s types.Scope) string { s.Trace("trace"); return "" }},
	{"SetSorter", func(w *c29World, s types.Scope) string { s.SetSorter(c29Sorter{w}); return "" }},
	{"SetGrouper", func(w *c29World, s types.Scope) string { s.SetGrouper(c29Grouper{w}); return "" }},
	{"SetMaterializer", func(w *c29World, s types.Scope) string { s.SetMaterializer(c29Mat{w}); return "" }},
	{"SetExplainer", func(w *c29World, s types.Scope) string { s.SetExplainer(c29Expl{w}); return "" }},
	{"EnableExplain", func(w *c29World, s types.Scope) string { s.EnableExplain(); return "" }},
	{"Explainer", func(w *c29World, s types.Scope) string { return fmt.Sprintf("%T", s.Explainer()) }},
	{"sorted query", func(w *c29World, s types.Scope) string { return c29Query(w, s, w.order) }},
	{"grouped query", func(w *c29World, s types.Scope) string { return c29Query(w, s, w.group) }},
	{"materialised LET", func(w *c29World, s types.Scope) string { c29Query(w, s, w.mat); return "" }},
	{"explained query", func(w *c29World, s types.Scope) string { return c29Query(w, s, w.expl) }},
	{"query", func(w *c29World, s types.Scope) string { return c29Query(w, s, w.query) }},
	{"query with a subquery", func(w *c29World, s types.Scope) string { return c29Query(w, s, w.sub) }},
	{"query that calls", func(w *c29World, s types.Scope) string { return c29Query(w, s, w.call) }},
	{"LET", func(w *c29World, s types.Scope) string { c29Query(w, s, w.let); return "" }},
	{"lambda", func(w *c29World, s types.Scope) string {
		return show(w.lambda.Reduce(bg, s, []vfilter.Any{int64(1)}))
	}},
	{"Modify(count)", func(w *c29World, s types.Scope) string {
		return fmt.Sprint(s.GetAggregatorCtx().Modify("n", func(v types.Any, pres bool) types.Any {
			n, _ := v.(int64)
			return n + 1
		}))
	}},
	{"SetAggregatorCtx", func(w *c29World, s types.Scope) string { s.SetAggregatorCtx(nil); return "" }},
	{"PrintVars", func(w *c29World, s types.Scope) string { return s.PrintVars() }},
	{"GetMembers of a variable", func(w *c29World, s types.Scope) string {
		return strings.Join(s.GetMembers(c29Row{s}), ",")
	}},
	{"Associative", func(w *c29World, s types.Scope) string {
		v, ok := s.Associative(c29Row{s}, "here")
		return show(v) + c29Has(v, ok)
	}},
	{"operators", func(w *c29World, s types.Scope) string {
		return show([]any{s.Eq(int64(1), 1.0), s.Add(int64(1), int64(2)), s.Sub("a", int64(1)), s.Mul(2.0, int64(2)), s.Div(int64(3), int64(2)), s.Lt(int64(1), int64(2)), s.Gt("a", "b"),
			s.Match("a.", "ab"), s.Membership(int64(1), []int64{1}), s.Bool(int64(0))})
	}},
	{"Iterate", func(w *c29World, s types.Scope) string {
		n := 0
		for range s.Iterate(bg, []int64{1, 2}) {
			n++
		}
		return fmt.Sprint(n)
	}},
	{"ExtractArgs", func(w *c29World, s types.Scope) string {
		a := &c29Args{}
		err := arg_parser.ExtractArgsWithContext(bg, s, D("v", "q"), a)
		return fmt.Sprint(a.V, err)
	}},
	{"CheckForOverflow", func(w *c29World, s types.Scope) string { return fmt.Sprint(s.CheckForOverflow()) }},
	{"GetStats", func(w *c29World, s types.Scope) string { s.GetStats().Snapshot(); return "" }},
	{"ChargeOp", func(w *c29World, s types.Scope) string { s.ChargeOp(); return "" }},
	{"Marshal", func(w *c29World, s types.Scope) string {
		m, ok := s.(types.Marshaler)
		if !ok {
			return "no"
		}
		item, err := m.Marshal(s)
		if err != nil {
			return err.Error()
		}
		return string(item.Data)
	}},
	{"SetQueryContext", func(w *c29World, s types.Scope) string {
		types.SetQueryContext(context.WithValue(bg, "n", 1), s)
		return ""
	}},
	{"QueryContext", func(w *c29World, s types.Scope) string { return fmt.Sprint(types.QueryContext(s).Value("n")) }},
}

// c29End: everything that can be seen of the scopes in the end.
func (w *c29World) end(ops []int) string {
	vsched.Quiesce()
	var r []string
	for i, s := range w.scopes {
		s := s
		r = append(r, fmt.Sprintf("%d: %s %s %s %v", i, c29Resolve(s, "x"), c29Resolve(s, "y"), c29Resolve(s, "z"), s.IsClosed()))
	}
	for _, s := range w.scopes[1:] {
		r = append(r, c29Ops[c29Index["Modify(count)"]].run(w, s), s.PrintVars(), fmt.Sprint(types.QueryContext(s).Value("n")), fmt.Sprintf("%T", s.Explainer()))
	}
	s := w.scopes[1]
	probes := []string{"GetContext(k)", "GetFunction", "GetPlugin", "Trace", "Log"}
	for _, o := range ops {
		switch c29Ops[o].name {
		case "SetSorter":
			probes = append(probes, "sorted query")
		case "SetGrouper":
			probes = append(probes, "grouped query")
		}
	}
	for _, op := range probes {
		r = append(r, op+": "+c29Ops[c29Index[op]].run(w, s))
	}
	made := []string{}
	for _, m := range w.made {
		made = append(made, fmt.Sprint(m.IsClosed(), c29Resolve(m, "x"), c29Resolve(m, "y")))
	}
	sort.Strings(made)
	r = append(r, made...)
	r = append(r, showRows([]*ordereddict.Dict{s.GetStats().Snapshot()}))
	w.scopes[0].Close()
	for _, s := range w.scopes {
		r = append(r, fmt.Sprint(s.IsClosed()))
	}
	vsched.Quiesce()
	w.mu.Lock()
	sort.Strings(w.events)
	r = append(r, strings.Join(w.events, ", "))
	w.mu.Unlock()
	w.lmu.Lock()
	var logs []string
	for _, l := range w.logs {
		if !strings.Contains(l, "Scope already closed") {
			logs = append(logs, l)
		}
	}
	sort.Strings(logs)
	w.lmu.Unlock()
	r = append(r, logs...)
	return strings.Join(r, "\n")
}

var c29Index = map[string]int{}

func init() {
	for i, o := range c29Ops {
		c29Index[o.name] = i
	}
}

type c29Outcome struct{ results, end string }

var c29Known = map[string]c29Outcome{}

// c29Serial: the outcome of operations that are called one after another.
func c29Serial(order []int, ops []int, on []int) c29Outcome {
	key := fmt.Sprint(order, ops, on)
	if o, ok := c29Known[key]; ok {
		return o
	}
	var o c29Outcome
	vsched.Run(func() {
		w := newC29(&T{Case: key})
		res := make([]string, len(ops))
		for _, i := range order {
			res[i] = c29Ops[ops[i]].run(w, w.scopes[on[i]])
			vsched.Quiesce()
		}
		o = c29Outcome{strings.Join(res, " | "), w.end(ops)}
	}, nil, vsched.Options{MaxSteps: 1000000})
	c29Known[key] = o
	return o
}

func c29Body(t *T, ops []int, on []int) {
	w := newC29(t)
	t0 := ""
	for i, o := range ops {
		t0 += fmt.Sprintf("%s on %d, ", c29Ops[o].name, on[i])
	}
	t.Case = strings.TrimSuffix(t0, ", ")
	res := make([]string, len(ops))
	var wg sync.WaitGroup
	for i := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = c29Ops[ops[i]].run(w, w.scopes[on[i]])
		}()
	}
	wg.Wait()
	got := c29Outcome{strings.Join(res, " | "), w.end(ops)}
	t.data = &c29Pending{ops, on, got}
	t.Sig("%s", got.results)
}

type c29Pending struct {
	ops, on []int
	got     c29Outcome
}

func c29Permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var res [][]int
	for _, p := range c29Permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			res = append(res, q)
		}
	}
	return res
}

func c29Diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	var r []string
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "-", "-"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			r = append(r, fmt.Sprintf("in the end '%s', not '%s' as one after another", a, b))
		}
	}
	return strings.Join(r, "; ")
}

func c29Same(t, base *T) {
	p, _ := t.data.(*c29Pending)
	if p == nil {
		return
	}
	var all []c29Outcome
	var names []string
	for i, o := range p.ops {
		names = append(names, fmt.Sprintf("%s of scope %d", c29Ops[o].name, p.on[i]))
	}
	for _, order := range c29Permutations(len(p.ops)) {
		o := c29Serial(order, p.ops, p.on)
		if o == p.got {
			return
		}
		all = append(all, o)
	}
	what := strings.Join(names, " and ")
	for _, o := range all {
		if o.results == p.got.results {
			t.Fail("end", "%s at once: %s", what, c29Diff(p.got.end, o.end))
			return
		}
	}
	t.Fail("results", "%s at once return %s but one after another %s or %s", what, p.got.results, all[0].results, all[1].results)
}

// Which scopes two operations get: 0 is the parent of 1, which is the parent
// of 2 and 3.
var c29Pairs = [][]int{{1, 1}, {1, 2}, {2, 1}, {2, 3}}

func init() {
	register(&Prop{
		ID:    "C29",
		Level: "model_checking",
		Rule:  "operations on a scope, its parent and its children that run at once return and leave behind what they do in one of the orders one after another, without data races, deadlocks and panics",
		Scenarios: func() []Scenario {
			var res []Scenario
			for _, on := range c29Pairs {
				for i, o := range c29Ops {
					i, on := i, on
					// Pairs are unordered when both are on equal footing.
					from := 0
					if on[0] == on[1] || on[0] == 2 && on[1] == 3 {
						from = i
					}
					if on[0] == 2 && on[1] == 1 {
						continue
					}
					res = append(res, Scenario{
						Name: fmt.Sprintf("%s of scope %d with each operation of scope %d", o.name, on[0], on[1]), Quick: 2, Thorough: 3, NoRace: true, Same: c29Same,
						Body: func(t *T) {
							j := len(c29Ops) - 1 - vsched.Choose(len(c29Ops)-from)
							c29Body(t, []int{i, j}, on)
						},
					})
				}
			}
			// For the race detector: operations that only read or change the
			// state once do not need many schedules.
			for _, on := range c29Pairs {
				for i, o := range c29Ops {
					res = append(res, Scenario{
						Name: fmt.Sprintf("%s of scope %d and each operation of scope %d", o.name, on[0], on[1]), RaceOnly: true, RaceBase: true,
						Body: func(t *T) {
							for j := range c29Ops {
								c29Body(t, []int{i, j}, on)
								vsched.Quiesce()
							}
						},
					})
				}
			}
			core := []string{"Resolve(x)", "AppendVars(x=2)", "Copy with a destructor", "Copy and close", "Close", "AddDestructor", "SetContext(k, 1)", "Modify(count)", "IsClosed"}
			for a := range core {
				for b := a; b < len(core); b++ {
					ops := []int{c29Index[core[a]], c29Index[core[b]]}
					rest := core[b:]
					res = append(res, Scenario{
						Name: fmt.Sprintf("%s, %s and a third", core[a], core[b]), Quick: 2, Thorough: 3, NoRace: true, Same: c29Same,
						Body: func(t *T) {
							c29Body(t, append(ops[:2:2], c29Index[rest[vsched.Choose(len(rest))]]), []int{1, 1, 1})
						},
					})
				}
			}
			return res
		},
	})
}
