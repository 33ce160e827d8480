package main

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	vfilter "REPO"
	"REPO/arg_parser"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// What a scope describes.

type c30Ref struct {
	target   string
	repeated bool
	tag      string
}

func c30Show(m map[string]c30Ref) string {
	var r []string
	for k, v := range m {
		s := k + ":"
		if v.repeated {
			s += "[]"
		}
		s += v.target
		if v.tag != "" {
			s += "`" + v.tag + "`"
		}
		r = append(r, s)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func c30Fields(d *types.TypeDescription) map[string]c30Ref {
	r := map[string]c30Ref{}
	for _, i := range d.Fields.Items() {
		ref := i.Value.(*types.TypeReference)
		r[i.Key] = c30Ref{ref.Target, ref.Repeated, ref.Tag}
	}
	return r
}

// Types with everything that a description knows.
type c30Leaf struct {
	Name string
	Size int64
}

type c30Base struct {
	BaseField string
	Shared    int64
}

func (c30Base) BaseMethod() string { return "" }

type c30All struct {
	c30Base
	Name   string
	Leaf   c30Leaf
	Ptr    *c30Leaf
	List   []c30Leaf
	Ptrs   []*c30Leaf
	Deep   [][]*c30Leaf
	Map    map[string]c30Leaf
	Maps   map[string]*c30Leaf
	Arr    [2]c30Leaf
	Grid   map[string][2]c30Leaf
	Time   time.Time
	Any    any
	Strs   []string
	Bytes  []byte
	Self   *c30All
	Other  []*c30Other
	Fn     func()
	hidden int
}

func (self c30All) Value() c30Leaf                          { return c30Leaf{} }
func (self *c30All) Pointer() *c30Leaf                      { return nil }
func (self *c30All) Leaves() []c30Leaf                      { return nil }
func (self *c30All) Fails() (string, error)                 { return "", nil }
func (self *c30All) Args(a int) string                      { return "" }
func (self *c30All) Nothing()                               {}
func (self *c30All) Three() (a, b, c int)                   { return }
func (self *c30All) MarshalJSON() ([]byte, error)           { return nil, nil }
func (self *c30All) unexported() int                        { return self.hidden }
func (self *c30All) ByName(m map[string]int) map[string]int { return m }

// Only in terms of other types.
type c30Other struct {
	Leaf   *c30Leaf
	All    []c30All
	Third  c30Third
	Third2 *c30Third
}

type c30Third struct{ Ok bool }

func (self *c30Third) Yes() bool { return true }

// A type whose members the application decides.
type c30Custom struct{ Seen, Unseen string }

type c30Members struct{}

func (c30Members) Applicable(a types.Any, b types.Any) bool {
	_, ok := a.(*c30Custom)
	return ok
}
func (c30Members) GetMembers(scope types.Scope, a types.Any) []string { return []string{"Seen"} }
func (c30Members) Associative(scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
	return nil, false
}

type c30Holder struct {
	One  *c30Custom
	Many []c30Custom
}

// Fields of its own hide those of the structs it embeds.
type c30Inner struct{ First, Last int64 }

func (c30Inner) Which() int64 { return 0 }

type c30Shadow struct {
	First string
	c30Inner
	Last *c30Third
}

func (c30Shadow) Which() string { return "" }

const c30Pkg = "main."

var c30Want = map[string]map[string]c30Ref{
	"c30Leaf": {"Name": {target: "string"}, "Size": {target: "int64"}},
	"c30All": {
		"BaseField": {target: "string"}, "Shared": {target: "int64"}, "BaseMethod": {target: "string"},
		"Name": {target: "string"}, "Leaf": {target: "main.c30Leaf"}, "Ptr": {target: "main.c30Leaf"},
		"List": {"main.c30Leaf", true, ""}, "Ptrs": {"main.c30Leaf", true, ""}, "Deep": {"main.c30Leaf", true, ""}, "Arr": {"main.c30Leaf", true, ""},
		"Map": {target: "main.c30Leaf"}, "Grid": {target: "main.c30Leaf"}, "Maps": {target: "main.c30Leaf"}, "Time": {target: "time.Time"}, "Any": {target: "interface {}"},
		"Strs": {"string", true, ""}, "Bytes": {"uint8", true, ""}, "Self": {target: "main.c30All"}, "Other": {"main.c30Other", true, ""},
		"Value": {target: "main.c30Leaf"}, "Pointer": {target: "main.c30Leaf"}, "Leaves": {"main.c30Leaf", true, ""}, "Fails": {target: "string"},
		"Fn": {target: "func()"},
	},
	"c30Other":  {"Leaf": {target: "main.c30Leaf"}, "All": {"main.c30All", true, ""}, "Third": {target: "main.c30Third"}, "Third2": {target: "main.c30Third"}},
	"c30Third":  {"Ok": {target: "bool"}, "Yes": {target: "bool"}},
	"c30Custom": {"Seen": {target: "string"}},
	"c30Shadow": {"First": {target: "string"}, "Last": {target: "main.c30Third"}, "Which": {target: "string"}},
	"c30Holder": {"One": {target: "main.c30Custom"}, "Many": {"main.c30Custom", true, ""}},
}

// Ways in which types become part of a description.
var c30Add = []struct {
	name string
	v    any
	typ  string
}{
	{"&Leaf", &c30Leaf{}, "c30Leaf"}, {"Leaf", c30Leaf{}, "c30Leaf"}, {"[]*Leaf", []*c30Leaf{}, "c30Leaf"},
	{"&All", &c30All{}, "c30All"}, {"All", c30All{}, "c30All"}, {"nil All", (*c30All)(nil), "c30All"},
	{"&Other", &c30Other{}, "c30Other"}, {"[]Other", []c30Other{}, "c30Other"},
	{"&Third", &c30Third{}, "c30Third"}, {"Third", c30Third{Ok: true}, "c30Third"},
	{"&Custom", &c30Custom{}, "c30Custom"}, {"Custom", c30Custom{}, "c30Custom"}, {"&Holder", &c30Holder{}, "c30Holder"},
	{"Shadow", c30Shadow{}, "c30Shadow"},
}

func c30Types(t *T, seq []int) {
	e := newEnv(t)
	e.scope.AddProtocolImpl(c30Members{})
	m := types.NewTypeMap()
	var what []string
	for _, i := range seq {
		a := c30Add[i]
		what = append(what, a.name)
		if got := m.AddType(e.scope, a.v); got != c30Pkg+a.typ {
			t.Fail("name", "after %v: the type is called %q, want %q", what, got, c30Pkg+a.typ)
			return
		}
		d, ok := m.Get(e.scope, c30Pkg+a.typ)
		if !ok || d == nil {
			t.Fail("missing", "after %v: %s is not described", what, a.typ)
			return
		}
	}
	// Everything described so far, also through others.
	for n, want := range c30Want {
		d, ok := m.Get(e.scope, c30Pkg+n)
		if !ok {
			continue
		}
		expect(t, "type", fmt.Sprintf("%s after %v", n, what), c30Show(c30Fields(d)), c30Show(want))
		for f, r := range want {
			if (r.repeated || f == "Ptr") && strings.HasPrefix(r.target, c30Pkg) {
				if _, ok := m.Get(e.scope, r.target); !ok {
					t.Fail("refers", "after %v: %s of %s refers to %s which is not described", what, f, n, r.target)
				}
			}
		}
	}
	t.Sig("%v", what)
}

// Arguments.

type c30ArgT struct {
	name string
	typ  reflect.Type
	// What the description says.
	target   string
	repeated bool
}

var c30ArgTypes = []c30ArgT{
	{"string", c22T[string](), "string", false}, {"int64", c22T[int64](), "int64", false}, {"bool", c22T[bool](), "bool", false}, {"float64", c22T[float64](), "float64", false},
	{"[]string", c22T[[]string](), "string", true}, {"any", c22T[types.Any](), "types.Any", false}, {"[]any", c22T[[]types.Any](), "types.Any", true},
	{"LazyExpr", c22T[types.LazyExpr](), "types.LazyExpr", false}, {"StoredQuery", c22T[types.StoredQuery](), "types.StoredQuery", false},
	{"Dict", c22T[*ordereddict.Dict](), "ordereddict.Dict", false},
}

// Tags, the argument they stand for ("": the name of the field) and if it is
// required.
var c30Tags = []struct {
	tag, name string
	required  bool
}{
	{"field=%s", "a", false}, {"required,field=%s", "a", true}, {"field=%s,required", "a", true}, {"optional,field=%s", "b_1", false}, {"optional", "", false}, {"required", "", true},
	{"optional,field=%s,doc=About field of it", "c", false}, {"optional,doc=The field=x pair is not it,field=%s", "d", false}, {"optional,doc=subfield=y,field=%s", "e", false},
	{"optional,field=%s", "with-dash", false}, {"optional,field=%s", "with space", false}, {"required,field=%s", "\u00e9", true}, {"optional,field=%s", "A", false}, {"doc=required,field=%s", "g", false},
}

type c30F struct{ typ, tag int }

func c30Args(t *T, fs []c30F, plugin bool) {
	var sf []reflect.StructField
	want := map[string]c30Ref{}
	required := map[string]bool{}
	var names []string
	for i, f := range fs {
		goName := fmt.Sprintf("F%d", i)
		tg := c30Tags[f.tag]
		n := tg.name
		if n == "" {
			n = goName
		} else if _, pres := want[n]; pres {
			n += "2"
		}
		tag := tg.tag
		if strings.Contains(tag, "%s") {
			tag = fmt.Sprintf(tag, n)
		}
		typ := c30ArgTypes[f.typ]
		sf = append(sf, reflect.StructField{Name: goName, Type: typ.typ, Tag: reflect.StructTag(fmt.Sprintf("vfilter:%q", tag))})
		want[n] = c30Ref{typ.target, typ.repeated, tag}
		required[n] = tg.required
		names = append(names, n)
	}
	st := reflect.StructOf(sf)
	what := fmt.Sprint(st)
	e := newEnv(t)
	var failed error
	extract := func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
		failed = arg_parser.ExtractArgsWithContext(ctx, scope, args, reflect.New(st).Interface())
	}
	argType := reflect.New(st).Interface()
	if plugin {
		e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "c30", ArgType: argType, Doc: "doc", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
			extract(ctx, scope, args)
			return nil
		}})
	} else {
		e.scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "c30", ArgType: argType, Doc: "doc", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			extract(ctx, scope, args)
			return nil
		}})
	}
	m := types.NewTypeMap()
	info := e.scope.Describe(m)
	n, typ, doc := 0, "", ""
	for _, f := range info.Functions {
		if f.Name == "c30" && !plugin {
			n, typ, doc = n+1, f.ArgType, f.Doc
		}
	}
	for _, p := range info.Plugins {
		if p.Name == "c30" && plugin {
			n, typ, doc = n+1, p.ArgType, p.Doc
		}
	}
	d, pres := m.Get(e.scope, typ)
	if n != 1 || !pres || doc != "doc" {
		t.Fail("described", "%s: described %d times as %q (%v) with %q", what, n, typ, pres, doc)
		return
	}
	got := c30Fields(d)
	if !expect(t, "arguments", what, c30Show(got), c30Show(want)) {
		return
	}
	// Calls with each subset of the arguments, with and without an unknown one.
	call := func(args []string) {
		failed = nil
		text := "SELECT c30(" + strings.Join(args, ", ") + ") AS v FROM scope()"
		if plugin {
			text = "SELECT * FROM c30(" + strings.Join(args, ", ") + ")"
		}
		e.query(text)
	}
	val := func(i int) string {
		switch c30ArgTypes[fs[i].typ].name {
		case "int64", "bool", "float64":
			return "1"
		case "StoredQuery":
			return "{ SELECT 1 AS a FROM scope() }"
		case "Dict":
			return "dict(a=1)"
		}
		return "'x'"
	}
	for mask := 0; mask < 1<<len(fs); mask++ {
		for _, unknown := range []string{"", "zz", "F9", "field"} {
			var args []string
			bad := unknown != ""
			for i, n := range names {
				if mask&(1<<i) != 0 {
					args = append(args, "`"+n+"`="+val(i))
				} else if required[n] {
					bad = true
				}
			}
			if unknown != "" {
				args = append(args, unknown+"=1")
			}
			call(args)
			if (failed != nil) != bad {
				t.Fail("accepts", "%s: called with %v: %v", what, args, failed)
				return
			}
		}
	}
	t.Sig("%s", what)
}

// c30Builtin compares what is described with the calls of a function or
// plugin that comes with the language.
func c30Builtin(t *T, c *c25CallT) {
	e := newEnv(t)
	m := types.NewTypeMap()
	info := e.scope.Describe(m)
	n, typ, free, doc := 0, "", false, ""
	if c.plugin {
		for _, p := range info.Plugins {
			if p.Name == c.name {
				n, typ, free, doc = n+1, p.ArgType, p.FreeFormArgs, p.Doc
			}
		}
	} else {
		for _, f := range info.Functions {
			if f.Name == c.name {
				n, typ, free, doc = n+1, f.ArgType, f.FreeFormArgs, f.Doc
			}
		}
	}
	what := c.text(nil)
	if n != 1 || doc == "" && c.name != "scope" {
		t.Fail("described", "%s is described %d times, with %q", what, n, doc)
		return
	}
	t.Sig("%s %v", typ, free)
	if len(c.args) == 0 {
		return
	}
	expect(t, "free", what, fmt.Sprint(free), fmt.Sprint(c.free))
	if free {
		return
	}
	d, pres := m.Get(e.scope, typ)
	if !pres {
		t.Fail("described", "%s: the type %q of its arguments is not described", what, typ)
		return
	}
	required := map[string]bool{}
	text := map[string]string{}
	var names []string
	for k, r := range c30Fields(d) {
		names = append(names, k)
		for _, w := range strings.Split(r.tag, ",") {
			required[k] = required[k] || w == "required"
		}
	}
	sort.Strings(names)
	for _, a := range c.args {
		k, _, _ := strings.Cut(a, "=")
		text[k] = a
	}
	for k := range text {
		if _, ok := required[k]; !ok {
			t.Fail("undescribed", "%s accepts %s but only %v are described", what, k, names)
			return
		}
	}
	for mask := 0; mask < 1<<len(names); mask++ {
		for _, unknown := range []string{"", "zz"} {
			e := newEnv(t)
			bad := unknown != ""
			var args []string
			for i, k := range names {
				a := text[k]
				if a == "" {
					a = k + "=1"
				}
				if mask&(1<<i) != 0 {
					args = append(args, a)
				} else if required[k] {
					bad = true
				}
			}
			if unknown != "" {
				args = append(args, "zz=1")
			}
			q := c.text(args)
			if c.plugin {
				q += " LIMIT 3"
			}
			e.query(q)
			refused := false
			for _, l := range e.logs {
				refused = refused || strings.Contains(l, "Unexpected arg") || strings.Contains(l, "is required")
			}
			if refused != bad {
				t.Fail("accepts", "%s logs %q; described are %s", q, e.logs, c30Show(c30Fields(d)))
			}
			settle(t, q)
		}
	}
}

type c30Plugin struct {
	version int
	vfilter.GenericListPlugin
}

func (self c30Plugin) Info(scope types.Scope, m *types.TypeMap) *types.PluginInfo {
	res := self.GenericListPlugin.Info(scope, m)
	res.Version = self.version
	return res
}

func c30Version(s types.Scope, kind, name string) string {
	f, _ := s.GetFunction("version")
	return show(f.Call(bg, s, D(kind, name)))
}

// c30Registered: names registered in sequence in scopes and their copies.
func c30Registered(t *T, seq []int) {
	e := newEnv(t)
	scopes := []types.Scope{e.scope}
	regs := []*map[string]int{{}}
	var what []string
	fn := func(n string, v int) *vfilter.GenericFunction {
		return &vfilter.GenericFunction{FunctionName: n, Version: v, Doc: fmt.Sprint("doc", v), Metadata: D("m", int64(v)), Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return int64(v) }}
	}
	for i, op := range seq {
		v := i + 1
		at := len(scopes) - 1
		switch op {
		case 0:
			scopes[at].AppendFunctions(fn("f1", v))
			(*regs[at])["f1"] = v
		case 1:
			scopes[at].AppendFunctions(fn("f1", v), fn("f2", v))
			(*regs[at])["f1"], (*regs[at])["f2"] = v, v
		case 2:
			scopes[at].AppendFunctions(fn("len", v))
			(*regs[at])["len"] = v
		case 3:
			scopes[at].AppendPlugins(c30Plugin{v, vfilter.GenericListPlugin{PluginName: "p1", Doc: fmt.Sprint("doc", v), Metadata: D("m", int64(v)), Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
				return []types.Row{D("v", int64(v))}
			}}})
			(*regs[at])["plugin p1"] = v
		case 4:
			scopes = append(scopes, scopes[at].Copy())
			regs = append(regs, regs[at])
		case 5:
			scopes = append(scopes, scopes[at].NewScope())
			r := map[string]int{}
			for k, v := range *regs[at] {
				r[k] = v
			}
			regs = append(regs, &r)
		case 6:
			scopes[0].AppendFunctions(fn("f2", v))
			(*regs[0])["f2"] = v
		case 7:
			// The same name for both.
			scopes[at].AppendFunctions(fn("p1", v))
			(*regs[at])["p1"] = v
		}
		what = append(what, []string{"f1", "f1 and f2", "len", "p1", "copy", "new", "f2 in the first", "function p1"}[op])
		for si, s := range scopes {
			info := s.Describe(types.NewTypeMap())
			got := map[string]int{}
			seen := map[string]int{}
			for _, f := range info.Functions {
				seen[f.Name]++
				if f.Metadata != nil {
					x, _ := f.Metadata.GetInt64("m")
					got[f.Name] = int(x)
					if f.Version != int(x) || f.Doc != fmt.Sprint("doc", x) {
						t.Fail("mixed", "after %v: %s is described as version %d, %q, %d", what, f.Name, f.Version, f.Doc, x)
					}
				}
				if _, ok := s.GetFunction(f.Name); !ok {
					t.Fail("unreachable", "after %v: %s is described but there is no such function", what, f.Name)
				}
			}
			for _, p := range info.Plugins {
				seen["plugin "+p.Name]++
				if p.Metadata != nil {
					x, _ := p.Metadata.GetInt64("m")
					got["plugin "+p.Name] = int(x)
				}
				if _, ok := s.GetPlugin(p.Name); !ok {
					t.Fail("unreachable", "after %v: %s is described but there is no such plugin", what, p.Name)
				}
			}
			expect(t, "registered", fmt.Sprintf("scope %d after %v", si, what), fmt.Sprint(got), fmt.Sprint(*regs[si]))
			for n, c := range seen {
				if c != 1 {
					t.Fail("twice", "after %v: %s is described %d times", what, n, c)
				}
			}
			for _, c := range c25All {
				n := c.name
				if c.plugin {
					n = "plugin " + n
				}
				if seen[n] != 1 {
					t.Fail("lost", "after %v: %s is described %d times", what, n, seen[n])
				}
			}
			// So does version().
			for _, f := range info.Functions {
				if v := c30Version(s, "function", f.Name); v != fmt.Sprint(f.Version) {
					t.Fail("version", "after %v: version(function=%s) is %s, described %d", what, f.Name, v, f.Version)
				}
			}
			for _, p := range info.Plugins {
				if v := c30Version(s, "plugin", p.Name); v != fmt.Sprint(p.Version) {
					t.Fail("version", "after %v: version(plugin=%s) is %s, described %d", what, p.Name, v, p.Version)
				}
			}
			for _, n := range []string{"f1", "f2", "p1"} {
				_, f := s.GetFunction(n)
				_, p := s.GetPlugin(n)
				if (c30Version(s, "function", n) == "NULL") == f || (c30Version(s, "plugin", n) == "NULL") == p {
					t.Fail("version", "after %v: version(%s) knows what there is not or the reverse", what, n)
				}
			}
			// Calls agree.
			for _, n := range []string{"f1", "f2", "len", "p1"} {
				f, ok := s.GetFunction(n)
				w := (*regs[si])[n]
				if ok != (w > 0 || n == "len") || w > 0 && show(f.Call(bg, s, ordereddict.NewDict())) != fmt.Sprint(w) {
					t.Fail("called", "after %v: %s of scope %d is not version %d", what, n, si, w)
				}
			}
		}
	}
	t.Sig("%v", what)
}

// c30Many: n functions and n plugins, half of them of the same names, registered
// one by one or at once.
func c30Many(t *T, n int) {
	for _, atOnce := range []bool{true, false} {
		e := newEnv(t)
		var fs []types.FunctionInterface
		var ps []types.PluginGeneratorInterface
		want := map[string]int{}
		for i := 0; i < n; i++ {
			v := i + 1
			f := &vfilter.GenericFunction{FunctionName: fmt.Sprint("x", i), Version: v, Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return int64(v) }}
			p := vfilter.GenericListPlugin{PluginName: fmt.Sprint("x", i+n/2), Metadata: D("m", int64(v)), Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
				return []types.Row{D("v", int64(v))}
			}}
			want["f "+f.FunctionName], want["p "+p.PluginName] = v, v
			fs, ps = append(fs, f), append(ps, p)
		}
		if atOnce {
			e.scope.AppendFunctions(fs...)
			e.scope.AppendPlugins(ps...)
		} else {
			for i := range fs {
				e.scope.AppendFunctions(fs[i])
				e.scope.AppendPlugins(ps[i])
			}
		}
		for _, s := range []types.Scope{e.scope, e.scope.Copy(), e.scope.NewScope()} {
			got := map[string]int{}
			info := s.Describe(types.NewTypeMap())
			for _, f := range info.Functions {
				if strings.HasPrefix(f.Name, "x") {
					got["f "+f.Name] += f.Version
				}
			}
			for _, p := range info.Plugins {
				if strings.HasPrefix(p.Name, "x") {
					x, _ := p.Metadata.GetInt64("m")
					got["p "+p.Name] += int(x)
				}
			}
			expect(t, "many", fmt.Sprintf("%d functions and plugins, at once: %v", n, atOnce), fmt.Sprint(got), fmt.Sprint(want))
			for i := 0; i < n; i++ {
				f, ok := s.GetFunction(fmt.Sprint("x", i))
				_, ok2 := s.GetPlugin(fmt.Sprint("x", i+n/2))
				if !ok || !ok2 || show(f.Call(bg, s, ordereddict.NewDict())) != fmt.Sprint(i+1) {
					t.Fail("many called", "of %d functions and plugins the %dth is not found", n, i)
				}
			}
		}
	}
	t.Sig("%d", n)
}

// c30Aggregates: what is described as an aggregate depends on the rows
// before, what is not does not.
func c30Aggregates(t *T) {
	e := newEnv(t)
	for _, f := range e.scope.Describe(nil).Functions {
		for _, c := range c25All {
			if c.name != f.Name || c.plugin || f.Name == "scope" {
				continue
			}
			args := strings.Join(c.args, ", ")
			switch c.name {
			case "count", "sum":
			case "min":
				args = "item=0 - i"
			case "max":
				args = "item=i"
			case "enumerate":
				args = "items=i"
			}
			rows := e.query("LET T <= SELECT i FROM gen(n=3) SELECT " + c.name + "(" + args + ") AS r FROM T")
			vals := map[string]bool{}
			for _, r := range rows {
				v, _ := r.Get("r")
				vals[show(v)] = true
			}
			if f.IsAggregate != (len(vals) == 3) {
				t.Fail("aggregate", "%s is described as aggregate: %v, but 3 rows give %v", f.Name, f.IsAggregate, vals)
			}
		}
	}
	t.Sig("aggregates")
}

func init() {
	register(&Prop{
		ID:    "C30",
		Level: "model_checking",
		Rule:  "each description equals the one written down for the type or callable; calls with each subset of the arguments are refused exactly as described",
		Suites: []Suite{
			{
				Name: "types", NoRace: true,
				Bound: "all sequences of up to 3 (thorough 4) of 14 ways to describe 7 types that refer to each other (fields, methods, pointers, lists, maps, arrays, embedding, recursion, members chosen by the application)",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 3
					if tier == Thorough {
						max = 4
					}
					seqs(len(c30Add), 1, max, func(s []int) bool {
						s = append([]int(nil), s...)
						return y(Case{fmt.Sprint(s), func(t *T) { c30Types(t, s) }})
					})
				}),
			},
			{
				Name: "arguments", NoRace: true,
				Bound: "functions and plugins with one argument of 10 types x 14 tags, and with all pairs of 2 (thorough 10) types x 14 tags; called with every subset of them and unknown ones",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, plugin := range []bool{false, true} {
						for a := range c30ArgTypes {
							for g := range c30Tags {
								if !y(Case{fmt.Sprintf("%v %d %d", plugin, a, g), func(t *T) {
									c30Args(t, []c30F{{a, g}}, plugin)
									for b := range c30ArgTypes {
										if tier == Quick && b != a && b != (a+3)%len(c30ArgTypes) {
											continue
										}
										for h := range c30Tags {
											c30Args(t, []c30F{{a, g}, {b, h}}, plugin)
										}
									}
								}}) {
									return
								}
							}
						}
					}
				}),
				Steps: 1 << 30,
			},
			{
				Name: "builtin", NoRace: true,
				Bound: "the functions and plugins of the language, called with every subset of the described arguments and an unknown one",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for i := range c25All {
						if !y(Case{c25All[i].text(nil), func(t *T) { c30Builtin(t, &c25All[i]) }}) {
							return
						}
					}
					y(Case{"aggregates", c30Aggregates})
				}),
			},
			{
				Name: "registered", NoRace: true,
				Bound: "all sequences of up to 4 (thorough 5) of 8 operations: registering functions and plugins (also again, also those of the language, also of one name) and making copies and new scopes",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 4
					if tier == Thorough {
						max = 5
					}
					seqs(8, 1, max, func(s []int) bool {
						s = append([]int(nil), s...)
						return len(s) < max || y(Case{fmt.Sprint(s), func(t *T) { c30Registered(t, s) }})
					})
				}),
			},
			{
				Name: "many", NoRace: true,
				Bound: "0..34 and up to 300 (thorough 1025) functions and plugins near powers and round numbers, registered at once and one by one",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 0, y, c30Many) }),
			},
		},
	})
}
