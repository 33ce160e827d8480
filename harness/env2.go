package main

import (
	"PKG/vsched"
	"context"
	"errors"
	"fmt"
	"iter"
	"log"
	"strings"
	"sync"

	vfilter "REPO"
	"REPO/arg_parser"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// Env is a scope with an application's functions and plugins added, that
// records what is logged and which side effects happen.
type Env struct {
	t     *T
	scope types.Scope
	mu    sync.Mutex
	lmu   vsched.RawMutex
	logs  []string
	trace []string
	live  int // generators that are running
	// destructors that ran
	closed []string
	// called before gen() sends a row
	hook func(name string, i int64)
}

type logSink struct{ e *Env }

func (s logSink) Write(b []byte) (int, error) {
	// (The caller holds the lock of the log.Logger.)
	s.e.lmu.Lock()
	s.e.logs = append(s.e.logs, strings.TrimRight(string(b), "\n"))
	s.e.lmu.Unlock()
	return len(b), nil
}

func (e *Env) note(f string, a ...any) {
	e.mu.Lock()
	e.trace = append(e.trace, fmt.Sprintf(f, a...))
	e.mu.Unlock()
}

// envOf is the Env of a scope (a statement keeps the functions of the scope
// it was first evaluated in).
func envOf(scope types.Scope, e *Env) *Env {
	if x, ok := scope.GetContext("vf.env"); ok {
		return x.(*Env)
	}
	return e
}

func (e *Env) takeTrace() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	s := strings.Join(e.trace, " ")
	e.trace = nil
	return s
}

// errorLogs returns the messages that report a problem.
func (e *Env) errorLogs() []string {
	e.lmu.Lock()
	defer e.lmu.Unlock()
	var r []string
	for _, l := range e.logs {
		if strings.HasPrefix(l, "DEBUG:") || strings.HasPrefix(l, "TRACE:") {
			continue
		}
		r = append(r, l)
	}
	return r
}

func (e *Env) hasLog(sub string) bool {
	e.lmu.Lock()
	defer e.lmu.Unlock()
	for _, l := range e.logs {
		if strings.Contains(l, sub) {
			return true
		}
	}
	return false
}

type fxArgs struct {
	V types.Any `vfilter:"optional,field=v"`
	N string    `vfilter:"optional,field=n"`
}

type genArgs struct {
	N    int64  `vfilter:"optional,field=n"`
	Name string `vfilter:"optional,field=name"`
}

func lazyless(ctx context.Context, scope types.Scope, v any) any {
	for {
		l, ok := v.(types.LazyExpr)
		if !ok {
			return v
		}
		v = l.ReduceWithScope(ctx, scope)
	}
}

func newEnv(t *T) *Env {
	return newEnvOn(t, vfilter.NewScope())
}

func newEnvOn(t *T, scope types.Scope) *Env {
	e := &Env{t: t, scope: scope}
	scope.SetLogger(log.New(logSink{e}, "", 0))
	scope.SetContext("vf.env", e)
	e.install(scope)
	return e
}

func (e *Env) install(scope types.Scope) {
	scope.AppendFunctions(
		// fx(v=, n=): returns v; logs its call.
		&vfilter.GenericFunction{
			FunctionName: "fx",
			ArgType:      &fxArgs{},
			Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				arg := &fxArgs{}
				if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
					scope.Log("fx: %v", err)
					return types.Null{}
				}
				envOf(scope, e).note("%s(%s)", arg.N, show(arg.V))
				if arg.V == nil {
					return types.Null{}
				}
				return arg.V
			},
		},
		// nilf(): a function that wrongly returns a Go nil.
		&vfilter.GenericFunction{
			FunctionName: "nilf",
			Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				return nil
			},
		},
		// sq(): the square of v, from unparsed arguments.
		&vfilter.GenericFunction{
			FunctionName: "sq",
			Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				v, _ := args.Get("v")
				v = lazyless(ctx, scope, v)
				envOf(scope, e).note("sq(%s)", show(v))
				return scope.Mul(v, v)
			},
		},
	)
	scope.AppendPlugins(
		// gen(n=, name=): streams rows i=0.. (endless if n < 0).
		genPlugin{e},
		// args(...): one row with the arguments given.
		vfilter.GenericListPlugin{
			PluginName: "showargs",
			Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
				r := ordereddict.NewDict()
				for _, i := range args.Items() {
					r.Set(i.Key, lazyless(ctx, scope, i.Value))
				}
				return []types.Row{r}
			},
		},
	)
}

type genPlugin struct{ e *Env }

func (g genPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "gen", ArgType: tm.AddType(scope, &genArgs{})}
}

func (g genPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	g.e.mu.Lock()
	g.e.live++
	g.e.mu.Unlock()
	go func() {
		defer close(out)
		defer func() {
			g.e.mu.Lock()
			g.e.live--
			g.e.mu.Unlock()
		}()
		arg := &genArgs{}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
			scope.Log("gen: %v", err)
			return
		}
		err := scope.AddDestructor(func() {
			g.e.mu.Lock()
			g.e.closed = append(g.e.closed, arg.Name)
			g.e.mu.Unlock()
		})
		if err != nil {
			g.e.note("refused-%s", arg.Name)
		} else {
			g.e.note("open-%s", arg.Name)
		}
		for i := int64(0); arg.N < 0 || i < arg.N; i++ {
			if arg.Name != "" {
				g.e.note("%s%d", arg.Name, i)
			}
			if g.e.hook != nil {
				g.e.hook(arg.Name, i)
			}
			select {
			case <-ctx.Done():
				g.e.note("cancelled-%s", arg.Name)
				return
			case out <- ordereddict.NewDict().Set("i", i):
			}
		}
	}()
	return out
}

func (e *Env) set(name string, v any) *Env {
	e.scope.AppendVars(ordereddict.NewDict().Set(name, v))
	return e
}

// query parses and runs one or more statements and returns the rows of the
// last one.
func (e *Env) query(text string) []*ordereddict.Dict {
	return e.queryCtx(context.Background(), text)
}

func (e *Env) queryCtx(ctx context.Context, text string) []*ordereddict.Dict {
	stmts, err := vfilter.MultiParse(text)
	if err != nil {
		e.t.Fail("parse", "cannot parse %s: %v", text, err)
		return nil
	}
	return e.run(ctx, stmts...)
}

func (e *Env) run(ctx context.Context, stmts ...*vfilter.VQL) []*ordereddict.Dict {
	var rows []*ordereddict.Dict
	for _, s := range stmts {
		rows = collect(ctx, e.scope, s)
	}
	return rows
}

func mustParse(t *T, text string) []*vfilter.VQL {
	stmts, err := vfilter.MultiParse(text)
	if err != nil {
		t.Fail("parse", "cannot parse %s: %v", text, err)
		panic(errParse)
	}
	return stmts
}

var errParse = errors.New("harness: parse")

// D builds a dict from key, value pairs.
func D(kv ...any) *ordereddict.Dict {
	d := ordereddict.NewDict()
	for i := 0; i+1 < len(kv); i += 2 {
		d.Set(kv[i].(string), kv[i+1])
	}
	return d
}

// cases turns a generator function into a sequence.
func cases(f func(tier Tier, yield func(Case) bool)) func(Tier) iter.Seq[Case] {
	return func(t Tier) iter.Seq[Case] {
		return func(y func(Case) bool) {
			stop := false
			f(t, func(c Case) bool {
				if stop {
					return false
				}
				if !y(c) {
					stop = true
				}
				return !stop
			})
		}
	}
}

// seqs enumerates all sequences over n symbols with lengths min..max.
func seqs(n, min, max int, f func(s []int) bool) bool {
	var rec func(s []int) bool
	rec = func(s []int) bool {
		if len(s) >= min && !f(s) {
			return false
		}
		if len(s) == max {
			return true
		}
		for i := 0; i < n; i++ {
			if !rec(append(s[:len(s):len(s)], i)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

func tables(shapes []*ordereddict.Dict, min, max int) [][]*ordereddict.Dict {
	var res [][]*ordereddict.Dict
	seqs(len(shapes), min, max, func(s []int) bool {
		var t []*ordereddict.Dict
		for _, i := range s {
			t = append(t, shapes[i])
		}
		res = append(res, t)
		return true
	})
	return res
}

func copyTable(t []*ordereddict.Dict) []types.Row {
	r := []types.Row{}
	for _, d := range t {
		c := ordereddict.NewDict()
		for _, i := range d.Items() {
			c.Set(i.Key, i.Value)
		}
		r = append(r, c)
	}
	return r
}

func expect(t *T, key, what, got, want string) bool {
	if got != want {
		t.Fail(key, "%s: got %s want %s", what, trunc(got, 1500), trunc(want, 1500))
		return false
	}
	return true
}

var bg = context.Background()

func join(s []string) string { return strings.Join(s, " ") }

func listRows(rows func() []types.Row) func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
	return func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
		return rows()
	}
}

// rawFn is a function that hands its argument v over and returns 1.
func rawFn(f func(v any)) func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		v, _ := args.Get("v")
		f(lazyless(ctx, scope, v))
		return 1
	}
}

// genericList is a plugin without arguments.
func genericList(name string, rows func() []types.Row) types.PluginGeneratorInterface {
	return vfilter.GenericListPlugin{PluginName: name, Function: listRows(rows)}
}
