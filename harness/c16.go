package main

import (
	"context"
	"fmt"
	"log"
	"strings"

	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// The model: scopes hold a copy of their parent's frames plus their own, and
// share registries with the scopes they were copied from.

type mreg struct {
	fns, plugins map[string]int
	add          int // version of the Add protocol for c16Type
	ctx          map[string]int
	logger       int
	explainer    int
	sorter       int
	grouper      int // and materialiser
	tracer       int
	// Registries that may or may not be shared after ClearContext.
	unspec bool
}

func (r *mreg) clone() *mreg {
	n := &mreg{fns: map[string]int{}, plugins: map[string]int{}, add: r.add, ctx: map[string]int{}, logger: r.logger, explainer: r.explainer, sorter: r.sorter, grouper: r.grouper, tracer: r.tracer, unspec: r.unspec}
	for k, v := range r.fns {
		n.fns[k] = v
	}
	for k, v := range r.plugins {
		n.plugins[k] = v
	}
	return n
}

type mframe struct {
	vals map[string]string // name to shown value
	def  string            // value of names that it does not have
}

type mscope struct {
	frames  []mframe
	reg     *mreg
	parent  *mscope
	agg     int // identity of its own aggregator context or 0
	depth   int
	explain bool
	thr     int
	closed  bool
	kids    []*mscope
}

func (s *mscope) aggid() int {
	for s.agg == 0 {
		s = s.parent
	}
	return s.agg
}

func (s *mscope) resolve(n string) string {
	def := ""
	for i := len(s.frames) - 1; i >= 0; i-- {
		if v, ok := s.frames[i].vals[n]; ok {
			return v
		}
		if def == "" {
			def = s.frames[i].def
		}
	}
	return def
}

type c16Type struct{ n int }

type c16Add struct{ v int }

func (c16Add) Applicable(a types.Any, b types.Any) bool { _, ok := a.(c16Type); return ok }
func (p c16Add) Add(scope types.Scope, a types.Any, b types.Any) types.Any {
	return fmt.Sprintf("add%d", p.v)
}

type c16Sorter struct {
	types.Sorter
	v int
	w *c16World
}

func (s *c16Sorter) Sort(ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) <-chan types.Row {
	s.w.sorter = s.v
	return nil
}

type c16Grouper struct {
	types.Grouper
	v int
	w *c16World
}

func (s *c16Grouper) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	s.w.grouper = s.v
	return nil
}

type c16Mat struct{ v int }

func (s *c16Mat) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	return c16MatQuery{v: s.v}
}

type c16MatQuery struct {
	types.StoredQuery
	v int
}

type c16Tracer struct {
	v int
	w *c16World
}

func (s c16Tracer) Write(b []byte) (int, error) { s.w.traced = s.v; return len(b), nil }

type c16Explainer struct {
	types.Explainer
	v int
}

type c16Throttler struct {
	v int
	w *c16World
}

func (s *c16Throttler) ChargeOp() { s.w.charged = s.v }
func (s *c16Throttler) Close()    {}

type c16Struct struct {
	X string `json:"x"`
}

type c16World struct {
	t       *T
	real    []types.Scope
	model   []*mscope
	loggers map[int]*log.Logger
	n       int
	sorter  int
	charged int
	grouper int
	traced  int
	trace   []string
	lambda  *vfilter.Lambda
	aggs    map[int]types.AggregatorCtx
}

type c16Op struct {
	name string
	do   func(w *c16World, i int)
}

func (w *c16World) frame(i int, row types.Row, f mframe) {
	w.real[i].AppendVars(row)
	w.model[i].frames = append(w.model[i].frames[:len(w.model[i].frames):len(w.model[i].frames)], f)
}

func (s *mscope) close() {
	for _, k := range s.kids {
		k.close()
	}
	s.closed = true
}

func (w *c16World) v() string { return fmt.Sprintf("v%d", w.n) }
func (w *c16World) q() string { return fmt.Sprintf("\"v%d\"", w.n) }

var c16VarOps = []c16Op{
	{"copy", func(w *c16World, i int) {
		m := w.model[i]
		c := &mscope{frames: append([]mframe{}, m.frames...), reg: m.reg, parent: m, depth: m.depth + 1, explain: m.explain, thr: m.thr}
		m.kids = append(m.kids, c)
		w.real, w.model = append(w.real, w.real[i].Copy()), append(w.model, c)
	}},
	{"x=v", func(w *c16World, i int) {
		w.frame(i, D("x", w.v()), mframe{vals: map[string]string{"x": w.q()}})
	}},
	{"y=v,x=NULL", func(w *c16World, i int) {
		w.frame(i, D("y", w.v(), "x", nil), mframe{vals: map[string]string{"y": w.q(), "x": "NULL"}})
	}},
	{"x=0", func(w *c16World, i int) {
		w.frame(i, D("x", int64(0)), mframe{vals: map[string]string{"x": "0"}})
	}},
	{"y=''", func(w *c16World, i int) {
		w.frame(i, vfilter.NewLazyRow(bg, w.real[i]).AddColumn("y", func(ctx context.Context, scope types.Scope) types.Any { return "" }), mframe{vals: map[string]string{"y": `""`}, def: "?"})
	}},
	{"struct x", func(w *c16World, i int) {
		w.frame(i, &c16Struct{w.v()}, mframe{vals: map[string]string{"x": w.q(), "X": w.q()}, def: "?"})
	}},
	{"y=v default", func(w *c16World, i int) {
		w.frame(i, D("y", w.v()).SetDefault("d"+w.v()), mframe{vals: map[string]string{"y": w.q()}, def: fmt.Sprintf("%q", "d"+w.v())})
	}},
	{"close", func(w *c16World, i int) {
		if i == 0 {
			return
		}
		w.real[i].Close()
		w.model[i].close()
	}},
}

var c16RegOps = []c16Op{
	c16VarOps[0],
	{"new", func(w *c16World, i int) {
		m := w.model[i]
		c := &mscope{frames: []mframe{{vals: map[string]string{"NULL": "NULL"}}}, reg: m.reg.clone(), thr: m.thr, agg: w.n}
		w.aggs[w.n] = nil
		w.real, w.model = append(w.real, w.real[i].NewScope()), append(w.model, c)
	}},
	{"function", func(w *c16World, i int) {
		n := w.n
		w.real[i].AppendFunctions(&vfilter.GenericFunction{FunctionName: "f16", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return int64(n) }})
		w.model[i].reg.fns["f16"] = n
	}},
	{"plugin", func(w *c16World, i int) {
		n := w.n
		w.real[i].AppendPlugins(vfilter.GenericListPlugin{PluginName: "p16", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
			return []types.Row{D("n", int64(n))}
		}})
		w.model[i].reg.plugins["p16"] = n
	}},
	{"protocol", func(w *c16World, i int) {
		w.real[i].AddProtocolImpl(c16Add{w.n})
		w.model[i].reg.add = w.n
	}},
	{"context", func(w *c16World, i int) {
		w.real[i].SetContext("k", w.n)
		w.model[i].reg.ctx["k"] = w.n
	}},
	{"context2", func(w *c16World, i int) {
		w.real[i].SetContext("l", w.n)
		w.model[i].reg.ctx["l"] = w.n
	}},
	{"clear", func(w *c16World, i int) {
		w.real[i].ClearContext()
		w.model[i].reg.unspec = true
		w.model[i].reg = w.model[i].reg.clone()
		w.model[i].reg.unspec = true
	}},
	{"logger", func(w *c16World, i int) {
		w.loggers[w.n] = log.New(logSink{&Env{}}, "", 0)
		w.real[i].SetLogger(w.loggers[w.n])
		w.model[i].reg.logger = w.n
	}},
	{"aggregator", func(w *c16World, i int) {
		w.real[i].SetAggregatorCtx(nil)
		w.model[i].agg = w.n
	}},
	{"sorter", func(w *c16World, i int) {
		w.real[i].SetSorter(&c16Sorter{v: w.n, w: w})
		w.model[i].reg.sorter = w.n
	}},
	{"grouper and materializer", func(w *c16World, i int) {
		w.real[i].SetGrouper(&c16Grouper{v: w.n, w: w})
		vfilter.GetIntScope(w.real[i]).SetMaterializer(&c16Mat{w.n})
		w.model[i].reg.grouper = w.n
	}},
	{"tracer", func(w *c16World, i int) {
		w.real[i].SetTracer(log.New(c16Tracer{w.n, w}, "", 0))
		w.model[i].reg.tracer = w.n
	}},
	{"explainer", func(w *c16World, i int) {
		w.real[i].SetExplainer(&c16Explainer{v: w.n})
		w.model[i].reg.explainer = w.n
	}},
	{"explain", func(w *c16World, i int) {
		w.real[i].EnableExplain()
		w.model[i].explain = true
	}},
	{"throttler", func(w *c16World, i int) {
		w.real[i].SetThrottler(&c16Throttler{v: w.n, w: w})
		w.model[i].thr = w.n
	}},
}

func newC16(t *T, warm int) *c16World {
	w := &c16World{t: t, loggers: map[int]*log.Logger{}, aggs: map[int]types.AggregatorCtx{}, n: 1}
	m := &mscope{frames: []mframe{{vals: map[string]string{"NULL": "NULL"}}}, reg: (&mreg{}).clone(), agg: 1}
	w.real, w.model = []types.Scope{vfilter.NewScope()}, []*mscope{m}
	for i := 0; i < warm; i++ {
		n := fmt.Sprintf("w%d", i)
		w.frame(0, D(n, int64(i)), mframe{vals: map[string]string{n: fmt.Sprint(i)}})
	}
	w.lambda, _ = vfilter.ParseLambda("z => (x, y, z)")
	return w
}

func nz(s string) string {
	if s == "" {
		return "NULL"
	}
	return s
}

// check compares every scope with the model.
func (w *c16World) check(kind int) bool {
	ok := true
	bad := func(i int, what, got, want string) {
		if got != want {
			ok = false
			w.t.Fail(what, "after %s: %s of scope %d is %s, want %s", strings.Join(w.trace, ", "), what, i, got, want)
		}
	}
	aggs := map[int]types.AggregatorCtx{}
	for i, r := range w.real {
		m := w.model[i]
		for _, n := range []string{"x", "y", "X", "NULL", "w0", "w2"} {
			v, pres := r.Resolve(n)
			got := ""
			if pres {
				got = show(v)
			} else if v != nil && show(v) != "NULL" {
				got = "absent " + show(v)
			}
			if m.resolve(n) == "?" {
				// Whether a struct has a default is not specified.
				continue
			}
			bad(i, "Resolve("+n+")", got, m.resolve(n))
			if n == "x" || n == "w0" {
				v, pres = r.Associative(r, n)
				got = ""
				if pres {
					got = show(v)
				}
				bad(i, "member "+n, got, m.resolve(n))
			}
		}
		if kind == 0 && m.resolve("x") != "?" && m.resolve("y") != "?" {
			bad(i, "(x, y, z)", show(w.lambda.Reduce(bg, r, []vfilter.Any{"p"})), fmt.Sprintf(`[%s,%s,"p"]`, nz(m.resolve("x")), nz(m.resolve("y"))))
		}
		bad(i, "IsClosed", fmt.Sprint(r.IsClosed()), fmt.Sprint(m.closed))
		if d, ok := r.(interface{ StackDepth() int }); ok {
			bad(i, "depth", fmt.Sprint(d.StackDepth()), fmt.Sprint(m.depth))
		}
		if kind == 0 {
			continue
		}
		fn, pres := r.GetFunction("f16")
		got := 0
		if pres {
			got = int(fn.Call(bg, r, ordereddict.NewDict()).(int64))
		}
		if !m.reg.unspec {
			bad(i, "function", fmt.Sprint(got), fmt.Sprint(m.reg.fns["f16"]))
		} else if m.reg.fns["f16"] != 0 && got < m.reg.fns["f16"] {
			bad(i, "function", fmt.Sprint(got), fmt.Sprint(m.reg.fns["f16"]))
		}
		pl, pres := r.GetPlugin("p16")
		got = 0
		if pres {
			for row := range pl.Call(bg, r, ordereddict.NewDict()) {
				got = int(row.(*Dict).ToMap()["n"].(int64))
			}
		}
		if !m.reg.unspec {
			bad(i, "plugin", fmt.Sprint(got), fmt.Sprint(m.reg.plugins["p16"]))
		} else if m.reg.plugins["p16"] != 0 && got < m.reg.plugins["p16"] {
			bad(i, "plugin", fmt.Sprint(got), fmt.Sprint(m.reg.plugins["p16"]))
		}
		want := "NULL"
		if m.reg.add != 0 {
			want = fmt.Sprintf(`"add%d"`, m.reg.add)
		}
		bad(i, "c16Type + 1", show(r.Add(c16Type{}, int64(1))), want)
		bad(i, "'a' + 'b'", show(r.Add("a", "b")), `"ab"`)
		for _, k := range []string{"k", "l"} {
			v, pres := r.GetContext(k)
			bad(i, "context "+k, fmt.Sprint(v, pres), fmt.Sprint(c16opt(m.reg.ctx, k)))
		}
		lg := r.GetLogger()
		bad(i, "logger", fmt.Sprint(lg == w.loggers[m.reg.logger]), "true")
		ex := 0
		if e, ok := r.Explainer().(*c16Explainer); ok {
			ex = e.v
		}
		wex := 0
		if m.explain {
			wex = m.reg.explainer
		}
		bad(i, "explainer", fmt.Sprint(ex), fmt.Sprint(wex))
		if m.reg.sorter != 0 {
			w.sorter = 0
			if s, ok := r.(types.Sorter); ok {
				s.Sort(bg, r, nil, "x", false)
				bad(i, "sorter", fmt.Sprint(w.sorter), fmt.Sprint(m.reg.sorter))
			}
		}
		if m.reg.grouper != 0 {
			w.grouper = 0
			vfilter.GetIntScope(r).Group(bg, r, nil)
			bad(i, "grouper", fmt.Sprint(w.grouper), fmt.Sprint(m.reg.grouper))
			q, ok := vfilter.GetIntScope(r).Materialize(bg, "m", nil).(c16MatQuery)
			bad(i, "materializer", fmt.Sprint(q.v, ok), fmt.Sprint(m.reg.grouper, true))
		}
		w.traced = 0
		r.Trace("x")
		bad(i, "tracer", fmt.Sprint(w.traced), fmt.Sprint(m.reg.tracer))
		w.charged = 0
		r.ChargeOp()
		bad(i, "throttler", fmt.Sprint(w.charged), fmt.Sprint(m.thr))
		// Scopes share an aggregator context as in the model.
		a := r.GetAggregatorCtx()
		for id, b := range aggs {
			bad(i, fmt.Sprintf("aggregator context is %d", id), fmt.Sprint(a == b), fmt.Sprint(id == m.aggid()))
		}
		if old := w.aggs[m.aggid()]; old != nil && old != a {
			bad(i, "aggregator context", "replaced", "kept")
		}
		w.aggs[m.aggid()] = a
		aggs[m.aggid()] = a
	}
	return ok
}

func c16opt(m map[string]int, k string) string {
	v, ok := m[k]
	if !ok {
		return fmt.Sprint(nil, false)
	}
	return fmt.Sprint(v, true)
}

// c16Enum runs every sequence of depth further operations. Scopes cannot be
// forked, so each sequence starts from the beginning.
func c16Enum(t *T, kind int, ops []c16Op, warm int, prefix []int, depth int) {
	n := 0
	var rec func(seq []int)
	rec = func(seq []int) {
		w := newC16(t, warm)
		for j := 0; j < len(seq); j += 2 {
			w.n++
			op := ops[seq[j]]
			w.trace = append(w.trace, fmt.Sprintf("%s on %d", op.name, seq[j+1]))
			op.do(w, seq[j+1])
			w.n++
		}
		n++
		if !w.check(kind) || len(t.fails) > 3 {
			return
		}
		if len(seq)/2 >= depth {
			return
		}
		scopes := len(w.real)
		for o := range ops {
			for s := 0; s < scopes; s++ {
				if ops[o].name == "close" && s == 0 {
					continue
				}
				rec(append(seq[:len(seq):len(seq)], o, s))
			}
		}
	}
	rec(prefix)
	t.Sig("%d sequences", n)
}

// c16Deep: chains of d copies; two operations on the scopes of two levels,
// before the deeper ones exist and after.
func c16Deep(t *T, ops []c16Op, kind, d int, a, b int) {
	levels := []int{0, d / 2, d}
	for li, la := range levels {
		for lj, lb := range levels {
			if li > 0 && la == levels[li-1] || lj > 0 && lb == levels[lj-1] || len(t.fails) > 2 {
				continue
			}
			for _, late := range []bool{false, true} {
				w := newC16(t, 0)
				idx := []int{0}
				do := func(o, i int) {
					w.n++
					w.trace = append(w.trace, fmt.Sprintf("%s on level %d of %d", ops[o].name, i, d))
					ops[o].do(w, idx[i])
					w.n++
				}
				at := func(i int) {
					if i == la {
						do(a, i)
					}
					if i == lb {
						do(b, i)
					}
				}
				for i := 0; i < d; i++ {
					if !late {
						at(i)
					}
					ops[0].do(w, idx[i])
					idx = append(idx, len(w.real)-1)
					w.n++
				}
				if !late {
					at(d)
				} else {
					do(a, la)
					do(b, lb)
				}
				w.check(kind)
			}
		}
	}
}

// Queries that bind names at several levels.
type c16Env map[string]string

type c16Node struct {
	text string
	eval func(e c16Env) string
}

func c16Probe() c16Node {
	return c16Node{"(x, y)", func(e c16Env) string { return "[" + nz(e["x"]) + "," + nz(e["y"]) + "]" }}
}

func (e c16Env) with(k, v string) c16Env {
	n := c16Env{}
	for a, b := range e {
		n[a] = b
	}
	n[k] = v
	return n
}

type c16Val struct {
	text string
	eval func(e c16Env) string
}

func c16Vals(level int) []c16Val {
	return []c16Val{
		{fmt.Sprintf("%d", level*10), func(e c16Env) string { return fmt.Sprint(level * 10) }},
		{"NULL", func(e c16Env) string { return "NULL" }},
		{"''", func(e c16Env) string { return `""` }},
		{"y", func(e c16Env) string { return nz(e["y"]) }},
		{"x", func(e c16Env) string { return nz(e["x"]) }},
	}
}

var c16Constructs = []string{"foreach", "function", "row", "default", "workers", "query function", "query row", "loop"}

// c16Wrap binds name to the value around the inner expression. defs collects
// the definitions.
func c16Wrap(c, level int, name string, v c16Val, inner c16Node, defs *[]string) c16Node {
	// Looking at the names again afterwards.
	list := func(s string) string { return "(" + s + ", x, y)" }
	var in string
	switch c16Constructs[c] {
	case "foreach":
		in = fmt.Sprintf("dict(q={ SELECT * FROM foreach(row={ SELECT * FROM showargs(%s=%s) }, query={ SELECT %s AS r FROM one() }) }).q[0].r", name, v.text, inner.text)
	case "workers":
		in = fmt.Sprintf("dict(q={ SELECT * FROM foreach(row={ SELECT * FROM showargs(%s=%s) }, workers=2, query={ SELECT %s AS r FROM one() }) }).q[0].r", name, v.text, inner.text)
	case "loop":
		in = fmt.Sprintf("dict(q={ SELECT r FROM foreach(row=dict(%s=%s), query={ SELECT %s AS r FROM one() }) }).q[0].r", name, v.text, inner.text)
	case "row":
		in = fmt.Sprintf("dict(q={ SELECT %s AS r FROM showargs(%s=%s) }).q[0].r", inner.text, name, v.text)
	case "query row":
		in = fmt.Sprintf("dict(q={ SELECT %s AS r FROM showargs(%s=%s) WHERE 1 GROUP BY 1 }).q[0].r", inner.text, name, v.text)
	case "function":
		*defs = append(*defs, fmt.Sprintf("LET F%d(%s) = %s", level, name, inner.text))
		in = fmt.Sprintf("F%d(%s=%s)", level, name, v.text)
	case "query function":
		*defs = append(*defs, fmt.Sprintf("LET F%d(%s) = SELECT %s AS r FROM one()", level, name, inner.text))
		in = fmt.Sprintf("F%d(%s=%s)[0].r", level, name, v.text)
	case "default":
		*defs = append(*defs, fmt.Sprintf("LET F%d(%s=%s) = %s", level, name, v.text, inner.text))
		in = fmt.Sprintf("F%d()", level)
	}
	return c16Node{list(in), func(e c16Env) string {
		return "[" + inner.eval(e.with(name, v.eval(e))) + "," + nz(e["x"]) + "," + nz(e["y"]) + "]"
	}}
}

func init() {
	seqs := func(kind int, ops []c16Op, warms []int, depths [2]int) func(tier Tier, y func(Case) bool) {
		return func(tier Tier, y func(Case) bool) {
			depth := depths[tier]
			for _, warm := range warms {
				// Sequences are split by their first two operations.
				for a := range ops {
					if ops[a].name == "close" {
						continue
					}
					scopes := 1
					if ops[a].name == "copy" || ops[a].name == "new" {
						scopes = 2
					}
					for b := range ops {
						for s := 0; s < scopes; s++ {
							if ops[b].name == "close" && s == 0 {
								continue
							}
							if !y(Case{fmt.Sprintf("%d rows, %s on 0, %s on %d, ...", warm, ops[a].name, ops[b].name, s), func(t *T) {
								c16Enum(t, kind, ops, warm, []int{a, 0, b, s}, depth)
							}}) {
								return
							}
						}
					}
				}
			}
		}
	}
	register(&Prop{
		ID:    "C16",
		Level: "model_checking",
		Rule:  "all names and registries of all scopes agree with a stack of dictionaries after every sequence of operations; all probes of a query see the binding of the innermost construct around them",
		Suites: []Suite{
			{
				Name:  "variables",
				Bound: "all sequences of up to 4 (thorough 5) of 8 operations on all scopes of a tree that starts with 0..3 rows",
				Gen:   cases(seqs(0, c16VarOps, []int{0, 1, 2, 3}, [2]int{4, 5})),
				Steps: 1 << 30,
			},
			{
				Name:  "registries",
				Bound: "all sequences of up to 3 (thorough 4) of 14 operations on all scopes of a tree",
				Gen:   cases(seqs(1, c16RegOps, []int{0}, [2]int{3, 4})),
				Steps: 1 << 30,
			},
			{
				Name:  "deep",
				Bound: "chains of 1..16 (thorough 40) copies; each ordered pair of operations on the outermost, middle or innermost scope, before the scopes within are made or after",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 16
					if tier == Thorough {
						max = 40
					}
					for kind, ops := range [][]c16Op{c16VarOps, c16RegOps} {
						for a := range ops {
							for b := range ops {
								if a == 0 || b == 0 || ops[a].name == "close" || ops[b].name == "close" {
									continue
								}
								if !y(Case{ops[a].name + " and " + ops[b].name, func(t *T) {
									for d := 1; d <= max; d++ {
										c16Deep(t, ops, kind, d, a, b)
									}
									t.Sig("%d", max)
								}}) {
									return
								}
							}
						}
					}
				}),
				Steps: 1 << 30,
			},
			{
				Name:  "queries",
				Bound: "8 constructs that bind x or y to one of 5 values, nested 2 (thorough 3) deep, in 2 outer scopes",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					depth := 2
					if tier == Thorough {
						depth = 3
					}
					var rec func(level int, build func(inner c16Node, defs *[]string) c16Node, name string) bool
					rec = func(level int, build func(inner c16Node, defs *[]string) c16Node, name string) bool {
						if level > 0 {
							if !y(Case{name, func(t *T) {
								for outer := 0; outer < 2; outer++ {
									var defs []string
									n := build(c16Probe(), &defs)
									e := newEnv(t)
									e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "one", Function: listRows(func() []types.Row { return []types.Row{D("one", int64(1))} })})
									env := c16Env{}
									if outer == 1 {
										e.scope.AppendVars(D("x", "ox", "y", "oy"))
										env = c16Env{"x": `"ox"`, "y": `"oy"`}
									}
									text := strings.Join(defs, " ")
									if text != "" {
										e.query(text)
									}
									q := "SELECT " + n.text + " AS r, x, y FROM one()"
									want := fmt.Sprintf("{r:%s,x:%s,y:%s}", n.eval(env), nz(env["x"]), nz(env["y"]))
									expect(t, "binding", text+" "+q, showRows(e.query(q)), want)
									// Nothing leaks.
									for _, k := range []string{"x", "y", "r", "one"} {
										v, pres := e.scope.Resolve(k)
										got := ""
										if pres {
											got = show(v)
										}
										expect(t, "leak", k+" after "+text+" "+q, got, env[k])
									}
									settle(t, "binding")
								}
								t.Sig("ok")
							}}) {
								return false
							}
						}
						if level == depth {
							return true
						}
						for c := range c16Constructs {
							for _, nm := range []string{"x", "y"} {
								for vi, v := range c16Vals(level + 1) {
									// A default that refers to its own parameter is a recursion.
									if (c16Constructs[c] == "default") && v.text == nm {
										continue
									}
									b := func(inner c16Node, defs *[]string) c16Node {
										return build(c16Wrap(c, level+1, nm, v, inner, defs), defs)
									}
									if !rec(level+1, b, fmt.Sprintf("%s %s %s=%d", name, c16Constructs[c], nm, vi)) {
										return false
									}
								}
							}
						}
						return true
					}
					rec(0, func(inner c16Node, defs *[]string) c16Node { return inner }, "")
				}),
			},
		},
	})
}
