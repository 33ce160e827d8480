package main

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	vfilter "REPO"
	"REPO/arg_parser"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

type (
	c22Str   string
	c22Bool  bool
	c22Int   int64
	c22Float float64
	c22Strs  []string
	c22S     struct {
		A int
		B string
	}
	c22E struct{}
)

// A value and what it is: its number, string, elements or members.
type c22Val struct {
	name string
	v    any
	kind string // null bool int float string list dict query time other
	i    *int64 // the integer if it fits one
	u    *uint64
	f    float64
	s    string
	l    []c22Val
	p    string // as printed by %v
	d    string // a dict: shown
	t    int    // truth: 1 true, -1 false, 0 as scope.Bool says
}

func c22Ptr[X any](x X) *X { return &x }

func c22Num[X any](name string, v X, f float64, p string) c22Val {
	r := c22Val{name: name, v: v, kind: "int", f: f, p: p, t: 1}
	if !(f > 0) {
		r.t = -1
	}
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Bool {
		r.kind = "bool"
	} else if rv.Kind() == reflect.Float64 || rv.Kind() == reflect.Float32 {
		r.kind = "float"
	}
	// The type matters for large integers.
	switch t := any(v).(type) {
	case uint64:
		r.u = &t
		if t <= math.MaxInt64 {
			r.i = c22Ptr(int64(t))
		}
		return r
	case int64:
		r.i = &t
		if t >= 0 {
			r.u = c22Ptr(uint64(t))
		}
		return r
	}
	if f > -9e18 && f < 9e18 {
		r.i = c22Ptr(int64(f))
		if int64(f) >= 0 {
			r.u = c22Ptr(uint64(f))
		}
	} else if f > 0 && f < 1.8e19 {
		r.u = c22Ptr(uint64(f))
	}
	return r
}

func c22StrV(s string) c22Val {
	r := c22Val{name: fmt.Sprintf("%q", s), v: s, kind: "string", s: s, p: s, t: 1}
	if s == "" {
		r.t = -1
	}
	return r
}

func c22List(name string, v any, p string, l ...c22Val) c22Val {
	r := c22Val{name: name, v: v, kind: "list", l: l, p: p, t: 1}
	if len(l) == 0 {
		r.t = -1
	}
	return r
}

func c22DictV(name string, v any, d string, l ...c22Val) c22Val {
	return c22Val{name: name, v: v, kind: "dict", d: d, l: l}
}

type c22Query struct{ n int }

func (q c22Query) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for i := 0; i < q.n; i++ {
			select {
			case <-ctx.Done():
				return
			case out <- D("q", int64(i)):
			}
		}
	}()
	return out
}

func (q c22Query) ToString(scope types.Scope) string { return "c22Query" }

type c22Lazy struct {
	v any
	n *int
}

func (l c22Lazy) Reduce(ctx context.Context) types.Any { *l.n++; return l.v }
func (l c22Lazy) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any {
	*l.n++
	return l.v
}

func c22Vals() []c22Val {
	one := c22Num("int64(1)", int64(1), 1, "1")
	a, b := c22StrV("a"), c22StrV("bc")
	null := func(name string, v any) c22Val {
		return c22Val{name: name, v: v, kind: "null", t: -1}
	}
	res := []c22Val{
		null("nil", nil), null("Null", types.Null{}), null("&Null", &types.Null{}),
		c22Num("true", true, 1, "true"), c22Num("false", false, 0, "false"),
		c22Num("int64(0)", int64(0), 0, "0"), one, c22Num("int64(-1)", int64(-1), -1, "-1"),
		c22Num("MaxInt64", int64(math.MaxInt64), math.MaxInt64, "9223372036854775807"),
		c22Num("MinInt64", int64(math.MinInt64), math.MinInt64, "-9223372036854775808"),
		c22Num("MaxUint64", uint64(math.MaxUint64), math.MaxUint64, "18446744073709551615"),
		c22Num("1<<63", uint64(1)<<63, 1<<63, "9223372036854775808"),
		c22Num("uint64(7)", uint64(7), 7, "7"),
		c22Num("int(5)", 5, 5, "5"), c22Num("uint(5)", uint(5), 5, "5"),
		c22Num("int8(-5)", int8(-5), -5, "-5"), c22Num("uint8(200)", uint8(200), 200, "200"),
		c22Num("int16(-300)", int16(-300), -300, "-300"), c22Num("uint16(300)", uint16(300), 300, "300"),
		c22Num("int32(-70000)", int32(-70000), -70000, "-70000"), c22Num("uint32(70000)", uint32(70000), 70000, "70000"),
		c22Num("MaxInt8", int8(127), 127, "127"), c22Num("MinInt8", int8(-128), -128, "-128"), c22Num("MaxUint8", uint8(255), 255, "255"),
		c22Num("MaxInt16", int16(32767), 32767, "32767"), c22Num("MinInt16", int16(-32768), -32768, "-32768"), c22Num("MaxUint16", uint16(65535), 65535, "65535"),
		c22Num("MaxInt32", int32(math.MaxInt32), math.MaxInt32, "2147483647"), c22Num("MinInt32", int32(math.MinInt32), math.MinInt32, "-2147483648"), c22Num("MaxUint32", uint32(math.MaxUint32), math.MaxUint32, "4294967295"),
		c22Num("0.0", 0.0, 0, "0"), c22Num("1.5", 1.5, 1.5, "1.5"), c22Num("-1.5", -1.5, -1.5, "-1.5"), c22Num("2.0", 2.0, 2, "2"),
		c22Num("float32(0.5)", float32(0.5), 0.5, "0.5"),
		c22Num("1e300", 1e300, 1e300, "1e+300"), c22Num("-1e300", -1e300, -1e300, "-1e+300"),
		c22Num("1e19", 1e19, 1e19, "1e+19"),
		c22Num("Inf", math.Inf(1), math.Inf(1), "+Inf"), c22Num("NaN", math.NaN(), math.NaN(), "NaN"),
		c22StrV(""), a, b, c22StrV("5"), c22StrV("1.5"), c22StrV("true"), c22StrV("NULL"), c22StrV("é\n"),
		{name: "[]byte(ab)", v: []byte("ab"), kind: "string", s: "ab", p: "[97 98]"},
		{name: "[]byte(a)", v: []byte("a"), kind: "string", s: "a", p: "[97]"},
		{name: "[]byte{}", v: []byte{}, kind: "string", s: "", p: "[]"},
		{name: "*string", v: c22Ptr("ptr"), kind: "strptr", s: "ptr"},
		c22List("[]any{}", []any{}, "[]"), c22List("[]string{a,bc}", []string{"a", "bc"}, "[a bc]", a, b),
		c22List("[]string{a}", []string{"a"}, "[a]", a), c22List("[]any{a}", []any{"a"}, "[a]", a),
		c22List("[]any{1}", []any{int64(1)}, "[1]", one), c22List("[]int64{1,1}", []int64{1, 1}, "[1 1]", one, one),
		c22List("[]any{1,a}", []any{int64(1), "a"}, "[1 a]", one, a),
		c22List("[]any{[]byte}", []any{[]byte("a")}, "[[97]]", c22Val{v: []byte("a"), kind: "string", s: "a"}),
		c22DictV("{}", D(), "{}"), c22DictV("{k:a}", D("k", "a"), `{k:"a"}`, a), c22DictV("{k:1}", D("k", int64(1)), `{k:1}`, one),
		c22DictV("{k:1,l:a}", D("k", int64(1), "l", "a"), `{k:1,l:"a"}`, one, a),
		c22DictV("{k:NULL}", D("k", types.Null{}), "{k:NULL}", null("", types.Null{})),
		c22DictV("struct", c22S{A: 1, B: "a"}, `{A:1,B:"a"}`, one, a),
		c22DictV("&struct", &c22S{A: 1, B: "a"}, `{A:1,B:"a"}`, one, a),
		{name: "query 0", v: c22Query{0}, kind: "query"}, {name: "query 1", v: c22Query{1}, kind: "query"}, {name: "query 2", v: c22Query{2}, kind: "query"},
		{name: "time", v: time.Unix(1000, 0).UTC(), kind: "stringer", s: "1970-01-01 00:16:40 +0000 UTC"},
		{name: "duration", v: 90 * time.Second, kind: "stringer", s: "1m30s"},
		// No more is said about these than that nothing panics.
		{name: "nil *Dict", v: (*ordereddict.Dict)(nil), kind: "other"}, {name: "nil *int", v: (*int)(nil), kind: "other"},
		{name: "nil *string", v: (*string)(nil), kind: "other"}, {name: "nil *float64", v: (*float64)(nil), kind: "other"},
		{name: "nil *time", v: (*time.Time)(nil), kind: "other"}, {name: "nil slice", v: []any(nil), kind: "other"},
		{name: "nil []string", v: []string(nil), kind: "other"}, {name: "nil map", v: map[string]any(nil), kind: "other"},
		{name: "*int64", v: c22Ptr(int64(4)), kind: "other"}, {name: "*bool", v: c22Ptr(true), kind: "other"},
		{name: "array", v: [2]int{1, 2}, kind: "other"}, {name: "string array", v: [1]string{"a"}, kind: "other"},
		{name: "map", v: map[string]any{"k": 1}, kind: "other"}, {name: "map[int]", v: map[int]int{1: 1}, kind: "other"},
		{name: "func", v: func() {}, kind: "other"}, {name: "chan", v: make(chan int), kind: "other"},
		{name: "[]any{nil}", v: []any{nil}, kind: "other"}, {name: "[]any{Null,a}", v: []any{types.Null{}, "a"}, kind: "other"},
		{name: "[]any{nil *int}", v: []any{(*int)(nil), (*string)(nil), (*ordereddict.Dict)(nil)}, kind: "other"},
		{name: "[]any{query}", v: []any{c22Query{1}}, kind: "other"},
		{name: "empty struct", v: c22E{}, kind: "other"}, {name: "&empty struct", v: &c22E{}, kind: "other"},
		{name: "error", v: fmt.Errorf("x"), kind: "other"}, {name: "complex", v: complex(1, 1), kind: "other"},
		{name: "c22Str", v: c22Str("s"), kind: "other"}, {name: "c22Int", v: c22Int(3), kind: "other"}, {name: "c22Strs", v: c22Strs{"s"}, kind: "other"},
		{name: "[]*string", v: []*string{c22Ptr("a"), nil}, kind: "other"},
	}
	d1, d2 := D("k", "a"), D("k", int64(1), "l", "a")
	e1, e2 := c22DictV("", d1, `{k:"a"}`, a), c22DictV("", d2, `{k:1,l:"a"}`, one, a)
	res = append(res,
		c22List("[]any{{k:a}}", []any{d1}, "*", e1),
		c22List("[]Row{{k:a},{k:1,l:a}}", []types.Row{d1, d2}, "*", e1, e2),
		c22List("[]*Dict{{k:1,l:a}}", []*ordereddict.Dict{d2}, "*", e2),
		c22List("[]any{{k:a,l:bc}}", []any{D("k", "a", "l", "bc")}, "*", c22DictV("", D("k", "a", "l", "bc"), `{k:"a",l:"bc"}`, a, b)),
		c22List("[]any{{k:a},1}", []any{d1, int64(1)}, "*", e1, one),
		c22List("[]any{[]any{a}}", []any{[]any{"a"}}, "*", c22List("", []any{"a"}, "[a]", a)),
	)
	return res
}

// A field: what it is declared as and the expected rendering for a value;
// "error", or "" if nothing is specified.
type c22Field struct {
	name string
	typ  reflect.Type
	want func(scope types.Scope, v *c22Val) string
	raw  bool // the argument is not evaluated
}

const c22Error = "error"

func c22T[X any]() reflect.Type { return reflect.TypeOf((*X)(nil)).Elem() }

func c22WantStr(v *c22Val) string {
	switch v.kind {
	case "null":
		return ""
	case "string", "stringer":
		return v.s
	case "bool", "int", "float":
		return v.p
	case "list":
		if len(v.l) == 1 {
			return c22Elem(&v.l[0])
		}
		return v.p
	}
	return "*"
}

// c22Elem is a value as an element of a list of strings.
func c22Elem(v *c22Val) string {
	switch v.kind {
	case "string":
		return v.s
	case "bool", "int", "float", "list":
		return v.p
	case "dict":
		if len(v.l) == 1 && v.l[0].kind == "string" {
			return v.l[0].s
		}
		if d, ok := v.v.(*ordereddict.Dict); ok && len(v.l) > 1 {
			return fmt.Sprint(d)
		}
	}
	return "*"
}

func c22Fields() []c22Field {
	str := func(scope types.Scope, v *c22Val) string {
		s := c22WantStr(v)
		if s == "*" {
			return ""
		}
		return fmt.Sprintf("%q", s)
	}
	num := func(f func(v *c22Val) string) func(types.Scope, *c22Val) string {
		return func(scope types.Scope, v *c22Val) string {
			switch v.kind {
			case "bool", "int", "float":
				return f(v)
			case "other", "stringer":
				return ""
			}
			return c22Error
		}
	}
	integer := num(func(v *c22Val) string {
		if v.i == nil {
			return c22Error
		}
		return fmt.Sprint(*v.i)
	})
	float := num(func(v *c22Val) string { return fmt.Sprintf("f%v", v.f) })
	strs := func(scope types.Scope, v *c22Val) string {
		var l []string
		switch v.kind {
		case "list":
			for i := range v.l {
				l = append(l, c22Elem(&v.l[i]))
			}
		case "string", "bool", "int", "float":
			s := v.s
			if v.kind != "string" {
				s = v.p
			}
			l = []string{s}
		default:
			return ""
		}
		for i, s := range l {
			if s == "*" {
				return ""
			}
			l[i] = fmt.Sprintf("%q", s)
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	boolean := func(scope types.Scope, v *c22Val) string {
		switch {
		case v.t == 1:
			return "true"
		case v.t == -1:
			return "false"
		case v.kind == "other":
			return ""
		}
		return fmt.Sprint(scope.Bool(v.v))
	}
	dict := func(scope types.Scope, v *c22Val) string {
		switch v.kind {
		case "dict":
			return v.d
		case "null":
			return "{}"
		case "other", "stringer", "strptr":
			return ""
		case "list":
			if len(v.l) > 0 && v.l[0].kind == "dict" {
				return ""
			}
		}
		return c22Error
	}
	same := func(scope types.Scope, v *c22Val) string {
		if types.IsNil(v.v) && v.kind == "other" {
			return ""
		}
		return c22Show(v.v)
	}
	return []c22Field{
		{"any", c22T[types.Any](), same, false},
		{"lazyany", c22T[types.LazyAny](), nil, true},
		{"lazy", c22T[types.LazyExpr](), func(scope types.Scope, v *c22Val) string {
			if s := same(scope, v); s != "" {
				return "lazy " + s
			}
			return ""
		}, true},
		{"query", c22T[types.StoredQuery](), func(scope types.Scope, v *c22Val) string {
			row := func(v *c22Val) string {
				switch v.kind {
				case "dict":
					if len(v.l) > 0 {
						return v.d
					}
				case "bool", "int", "float", "string":
					return "{_value:" + show(v.v) + "}"
				}
				return "*"
			}
			var l []string
			switch v.kind {
			case "null":
			case "list":
				for i := range v.l {
					l = append(l, row(&v.l[i]))
				}
			case "query":
				for i := 0; i < v.v.(c22Query).n; i++ {
					l = append(l, fmt.Sprintf("{q:%d}", i))
				}
			default:
				if _, ok := v.v.([]byte); ok {
					return ""
				}
				l = append(l, row(v))
			}
			if strings.Contains(join(l), "*") {
				return ""
			}
			return "rows " + strings.Join(l, ";")
		}, false},
		{"string", c22T[string](), str, false},
		{"named string", c22T[c22Str](), str, false},
		{"bool", c22T[bool](), boolean, false},
		{"named bool", c22T[c22Bool](), boolean, false},
		{"int", c22T[int](), integer, false},
		{"int64", c22T[int64](), integer, false},
		{"named int", c22T[c22Int](), integer, false},
		{"uint64", c22T[uint64](), num(func(v *c22Val) string {
			if v.u == nil {
				return c22Error
			}
			return fmt.Sprint(*v.u)
		}), false},
		{"float64", c22T[float64](), float, false},
		{"named float", c22T[c22Float](), float, false},
		{"float32", c22T[float32](), num(func(v *c22Val) string { return fmt.Sprintf("f%v", float32(v.f)) }), false},
		{"[]string", c22T[[]string](), strs, false},
		{"named []string", c22T[c22Strs](), strs, false},
		{"[]named string", c22T[[]c22Str](), strs, false},
		{"[]any", c22T[[]types.Any](), func(scope types.Scope, v *c22Val) string {
			switch v.kind {
			case "list":
				return c22Show(v.v)
			case "string", "bool", "int", "float", "dict", "stringer":
				if _, ok := v.v.([]byte); ok {
					return ""
				}
				return "[" + c22Show(v.v) + "]"
			}
			return ""
		}, false},
		{"[]dict", c22T[[]*ordereddict.Dict](), func(scope types.Scope, v *c22Val) string {
			var l []string
			switch v.kind {
			case "null":
			case "dict":
				l = append(l, v.d)
			case "list":
				for i := range v.l {
					if v.l[i].kind != "dict" {
						return c22Error
					}
					l = append(l, v.l[i].d)
				}
			case "query":
				for i := 0; i < v.v.(c22Query).n; i++ {
					l = append(l, fmt.Sprintf("{q:%d}", i))
				}
			case "other", "stringer", "strptr":
				return ""
			default:
				if _, ok := v.v.([]byte); ok {
					return ""
				}
				return c22Error
			}
			return "[" + strings.Join(l, ",") + "]"
		}, false},
		{"dict", c22T[*ordereddict.Dict](), dict, false},
	}
}

func c22Show(v any) string {
	switch t := v.(type) {
	case c22Str:
		return fmt.Sprintf("%q", string(t))
	case c22Bool:
		return fmt.Sprint(bool(t))
	case c22Float:
		return fmt.Sprintf("f%v", float64(t))
	case []c22Str:
		var l []string
		for _, x := range t {
			l = append(l, string(x))
		}
		return show(l)
	}
	return show(v)
}

// c22Render shows what a field was set to.
func c22Render(scope types.Scope, v any) string {
	switch t := v.(type) {
	case types.LazyExpr:
		if t == nil {
			return "unset"
		}
		return "lazy " + c22Show(t.Reduce(bg))
	case types.StoredQuery:
		if t == nil {
			return "unset"
		}
		if q, ok := t.(c22Query); ok {
			_ = q
		}
		var l []string
		for row := range t.Eval(bg, scope) {
			l = append(l, show(rowDict(bg, scope, row)))
		}
		return "rows " + strings.Join(l, ";")
	}
	return c22Show(v)
}

func c22Struct(fields ...reflect.StructField) any {
	return reflect.New(reflect.StructOf(fields)).Interface()
}

func c22One(typ reflect.Type, tag string) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "X", Type: typ, Tag: reflect.StructTag(`vfilter:"` + tag + `"`)}})
}

// c22Extract parses args into a fresh struct of one field and renders it.
func c22Extract(ctx context.Context, scope types.Scope, typ reflect.Type, args *ordereddict.Dict, free bool) (res string) {
	target := reflect.New(c22One(typ, "optional,field=x"))
	var err error
	if free {
		var kw *ordereddict.Dict
		kw, err = arg_parser.ExtractKWArgsWithContext(ctx, scope, args, target.Interface())
		if err == nil && kw.Len() > 0 {
			return "kw " + show(kw)
		}
	} else {
		err = arg_parser.ExtractArgsWithContext(ctx, scope, args, target.Interface())
	}
	if err != nil {
		return c22Error
	}
	f := target.Elem().Field(0)
	if typ == c22T[types.Any]() || typ == c22T[types.LazyAny]() {
		v := f.Interface()
		if l, ok := v.(types.LazyExpr); ok && typ == c22T[types.LazyAny]() {
			v = l.Reduce(ctx)
		}
		return c22Show(v)
	}
	return c22Render(scope, f.Interface())
}

type c22Way struct {
	name string
	skip string // kinds for which the way makes another value
	f    func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int)
}

func c22Fn(e *Env, typ reflect.Type) {
	e.scope.AppendFunctions(vfilter.GenericFunction{FunctionName: "f", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		return c22Extract(ctx, scope, typ, args, false)
	}})
	e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "pf", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
		return []types.Row{D("x", c22Extract(ctx, scope, typ, args, false))}
	}})
}

func c22VQL(text string) func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
	return func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		c22Fn(e, typ)
		e.set("V", v.v)
		rows := e.query(text)
		if len(rows) != 1 {
			return fmt.Sprintf("%d rows: %s", len(rows), showRows(rows)), -1
		}
		x, _ := rows[0].Get("x")
		s, _ := x.(string)
		return s, -1
	}
}

var c22Ways = []c22Way{
	{"immediate", "", func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		return c22Extract(bg, e.scope, typ, D("x", v.v), false), -1
	}},
	{"immediate with kwargs", "", func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		return c22Extract(bg, e.scope, typ, D("x", v.v), true), -1
	}},
	{"wrapped", "query", func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		return c22Extract(bg, e.scope, typ, D("x", arg_parser.ToLazyExpr(e.scope, v.v)), false), -1
	}},
	{"lazy", "", func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		n := 0
		return c22Extract(bg, e.scope, typ, D("x", c22Lazy{v.v, &n}), false), n
	}},
	{"lazy with kwargs", "", func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		n := 0
		return c22Extract(bg, e.scope, typ, D("x", c22Lazy{v.v, &n}), true), n
	}},
	{"**", "", func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		return c22Extract(bg, e.scope, typ, D("**", D("x", v.v)), false), -1
	}},
	{"lazy **", "", func(t *T, e *Env, typ reflect.Type, v *c22Val) (string, int) {
		n := 0
		return c22Extract(bg, e.scope, typ, D("**", c22Lazy{D("x", v.v), &n}), true), -1
	}},
	{"function", "", c22VQL("SELECT f(x=V) AS x FROM scope()")},
	{"function with LET", "", c22VQL("LET W = V SELECT f(x=W) AS x FROM scope()")},
	{"function with a parameter", "query", c22VQL("LET G(a) = a SELECT f(x=G(a=V)) AS x FROM scope()")},
	{"function in a function", "query", c22VQL("LET G(a) = f(x=a) SELECT G(a=V) AS x FROM scope()")},
	{"plugin", "", c22VQL("SELECT * FROM pf(x=V)")},
	{"plugin with LET", "", c22VQL("LET W = V SELECT * FROM pf(x=W)")},
	{"plugin in a foreach", "", c22VQL("SELECT * FROM foreach(row={ SELECT 1 AS a FROM scope() }, query={ SELECT * FROM pf(x=V) })")},
	{"** of a dict", "", c22VQL("SELECT f(`**`=DD) AS x FROM scope()")},
}

func c22Convert(t *T, e *Env, f *c22Field, v *c22Val, w *c22Way) {
	if w.name == "** of a dict" {
		e.set("DD", D("x", v.v))
	}
	got, n := w.f(t, e, f.typ, v)
	t.Sig("%s", got)
	what := fmt.Sprintf("%s to a field of type %s, %s", v.name, f.name, w.name)
	if f.want != nil {
		if want := f.want(e.scope, v); want != "" && !(w.skip != "" && strings.Contains(w.skip, v.kind)) {
			if want == "[]" && got == "nil" {
				got = want
			}
			expect(t, "convert", what, got, want)
		}
	}
	if strings.Contains(got, "kw ") {
		t.Fail("kw", "%s: %s", what, got)
	}
	if n >= 0 && !f.raw && n != 1 {
		t.Fail("reduce", "%s: the argument was evaluated %d times", what, n)
	}
}

type c22Args struct {
	A string   `vfilter:"required,field=a,doc=A"`
	B int64    `vfilter:"optional,field=b"`
	C []string `vfilter:"optional,field=c"`
	D float64  // no tag
	E string   `vfilter:"-"`
	F string   `vfilter:"optional"`
	g string
}

// What c22Args should hold, or "error".
func c22WantArgs(args []string, free bool) string {
	r := map[string]string{"a": `""`, "b": "7", "c": "[def]", "F": `"deff"`}
	var kw []string
	for _, a := range args {
		name, val, _ := strings.Cut(a, "=")
		switch name {
		case "a", "F":
			r[name] = `"` + val + `"`
		case "b":
			if val != "5" {
				return c22Error
			}
			r[name] = val
		case "c":
			r[name] = "[" + val + "]"
		default:
			if !free {
				return c22Error
			}
			if val == "nil" {
				kw = append(kw, name+":NULL")
			} else {
				kw = append(kw, fmt.Sprintf("%s:%q", name, val))
			}
		}
	}
	ok := false
	for _, a := range args {
		ok = ok || strings.HasPrefix(a, "a=")
	}
	if !ok {
		return c22Error
	}
	s := fmt.Sprintf("a=%s b=%s c=%s F=%s", r["a"], r["b"], r["c"], r["F"])
	if free {
		s += " kw={" + strings.Join(kw, ",") + "}"
	}
	return s
}

// c22SortKW sorts the rest (its order is not specified next to **).
func c22SortKW(s string) string {
	i := strings.Index(s, " kw={")
	if i < 0 {
		return s
	}
	l := strings.Split(strings.TrimSuffix(s[i+5:], "}"), ",")
	sort.Strings(l)
	return s[:i] + " kw={" + strings.Join(l, ",") + "}"
}

func c22GotArgs(scope types.Scope, args *ordereddict.Dict, free bool) string {
	a := &c22Args{B: 7, C: []string{"def"}, F: "deff", D: 9, E: "ee", g: "gg"}
	var err error
	var kw *ordereddict.Dict
	if free {
		kw, err = arg_parser.ExtractKWArgsWithContext(bg, scope, args, a)
	} else {
		err = arg_parser.ExtractArgsWithContext(bg, scope, args, a)
	}
	if a.D != 9 || a.E != "ee" || a.g != "gg" {
		return fmt.Sprintf("undeclared fields changed: %v", a)
	}
	if err != nil {
		return c22Error
	}
	s := fmt.Sprintf("a=%q b=%d c=%v F=%q", a.A, a.B, a.C, a.F)
	if free {
		s += " kw=" + show(kw)
	}
	return s
}

var c22ArgPool = []string{"a=s", "b=5", "b=x", "c=u", "F=v", "z=1", "D=1", "E=1", "g=1", "A=1", "B=nil"}

func c22ArgSets(max int, f func(args []string) bool) {
	seqs(len(c22ArgPool), 0, max, func(s []int) bool {
		var l []string
		seen := map[string]bool{}
		for _, i := range s {
			name, _, _ := strings.Cut(c22ArgPool[i], "=")
			if seen[name] {
				return true
			}
			seen[name] = true
			l = append(l, c22ArgPool[i])
		}
		return f(l)
	})
}

func c22Val1(s string) any {
	switch s {
	case "5":
		return int64(5)
	case "nil":
		return nil
	}
	return s
}

func c22Dict(args []string, lazy int) *ordereddict.Dict {
	d := D()
	for i, a := range args {
		name, val, _ := strings.Cut(a, "=")
		v := c22Val1(val)
		if lazy>>i&1 != 0 {
			n := 0
			v = c22Lazy{v, &n}
		}
		d.Set(name, v)
	}
	return d
}

type c22Alien struct {
	X int64 `vfilter:"optional,field=x"`
	y int64 `vfilter:"optional,field=y"`
}

func init() {
	register(&Prop{
		ID:    "C22",
		Level: "model_checking",
		Rule:  "a call sets each declared argument to the value passed, converted to its type, evaluated once, or reports an error; nothing panics",
		Suites: []Suite{
			{
				Name: "parsers", NoRace: true,
				Bound: "arguments of 2 types parsed by the application: all subsets of 4 arguments, good and bad, in calls, in ** and through the API",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for mask := 0; mask < 16; mask++ {
						for bad := 0; bad < 4; bad++ {
							if !y(Case{fmt.Sprint(mask, " ", bad), func(t *T) { c22Parsers(t, mask, bad) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name: "convert", Bound: "21 types of fields x 84 values x 15 ways of passing them",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := c22Vals()
					for _, f := range c22Fields() {
						for i := range vals {
							for j := range c22Ways {
								v, w := &vals[i], &c22Ways[j]
								if !y(Case{fmt.Sprintf("%s to %s, %s", v.name, f.name, w.name), func(t *T) {
									e := newEnv(t)
									c22Convert(t, e, &f, v, w)
									settle(t, "convert")
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name: "arguments", Bound: "all sequences of up to 3 (thorough 4) different arguments out of 11 (required, optional, inconvertible, unknown and undeclared), each immediate or lazy, with and without collecting the rest",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 3
					if tier == Thorough {
						n = 4
					}
					stop := false
					c22ArgSets(n, func(args []string) bool {
						if !y(Case{strings.Join(args, " "), func(t *T) {
							e := newEnv(t)
							for lazy := 0; lazy < 1<<len(args); lazy++ {
								for _, free := range []bool{false, true} {
									expect(t, "args", fmt.Sprintf("arguments %v (lazy %b, rest %v)", args, lazy, free),
										c22GotArgs(e.scope, c22Dict(args, lazy), free), c22WantArgs(args, free))
								}
							}
							t.Sig("%s", c22WantArgs(args, true))
						}}) {
							stop = true
						}
						return !stop
					})
				}),
			},
			{
				Name: "**", Bound: "all sequences of up to 3 different arguments out of 11, every way to pass some of them in **",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					stop := false
					c22ArgSets(3, func(args []string) bool {
						if !y(Case{strings.Join(args, " "), func(t *T) {
							e := newEnv(t)
							for in := 0; in < 1<<len(args); in++ {
								var out, inner []string
								for i, a := range args {
									if in>>i&1 != 0 {
										inner = append(inner, a)
									} else {
										out = append(out, a)
									}
								}
								for form := 0; form < 4; form++ {
									var dd any = c22Dict(inner, form&1*7)
									if form&2 != 0 {
										n := 0
										dd = c22Lazy{dd, &n}
									}
									d := c22Dict(out, 0)
									d.Set("**", dd)
									for _, free := range []bool{false, true} {
										expect(t, "args", fmt.Sprintf("arguments %v and %v in ** (form %d, rest %v)", out, inner, form, free),
											c22SortKW(c22GotArgs(e.scope, d, free)), c22SortKW(c22WantArgs(args, free)))
									}
								}
							}
							t.Sig("%s", c22WantArgs(args, true))
						}}) {
							stop = true
						}
						return !stop
					})
				}),
			},
			{
				Name: "calls", Bound: "all sequences of up to 3 different arguments out of 11 in calls of functions and plugins, directly and through definitions",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					stop := false
					c22ArgSets(3, func(args []string) bool {
						if !y(Case{strings.Join(args, " "), func(t *T) {
							e := newEnv(t)
							e.scope.AppendFunctions(vfilter.GenericFunction{FunctionName: "f", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
								return c22GotArgs(scope, args, false)
							}}, vfilter.GenericFunction{FunctionName: "fk", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
								return c22GotArgs(scope, args, true)
							}})
							e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "pf", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
								return []types.Row{D("x", c22GotArgs(scope, args, false))}
							}})
							lit := func(s string) string {
								switch s {
								case "5":
									return s
								case "nil":
									return "NULL"
								}
								return "'" + s + "'"
							}
							for mask := 0; mask < 1<<len(args); mask++ {
								var l []string
								lets := ""
								for i, a := range args {
									name, val, _ := strings.Cut(a, "=")
									if mask>>i&1 != 0 {
										lets += fmt.Sprintf("LET v%d = %s ", i, lit(val))
										l = append(l, fmt.Sprintf("%s=v%d", name, i))
									} else {
										l = append(l, name+"="+lit(val))
									}
								}
								s := strings.Join(l, ", ")
								for _, text := range []string{
									fmt.Sprintf("SELECT f(%s) AS x FROM scope()", s), fmt.Sprintf("SELECT fk(%s) AS x FROM scope()", s), fmt.Sprintf("SELECT * FROM pf(%s)", s),
									fmt.Sprintf("LET h = f(%s) SELECT h AS x FROM scope()", s), fmt.Sprintf("SELECT f(`**`=dict(%s)) AS x FROM scope()", s),
								} {
									rows := e.query(lets + text)
									expect(t, "args", lets+text, showRows(rows), fmt.Sprintf("{x:%q}", c22WantArgs(args, strings.Contains(text, "fk"))))
								}
							}
							t.Sig("%s", c22WantArgs(args, true))
						}}) {
							stop = true
						}
						return !stop
					})
				}),
			},
			{
				Name: "histories", Bound: "all sequences of 3 (thorough 4) calls out of 9 on one type: no call depends on those before",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 3
					if tier == Thorough {
						n = 4
					}
					pool := [][]string{{}, {"a=s"}, {"b=5"}, {"a=t", "b=5"}, {"a=s", "b=x"}, {"a=s", "z=1"}, {"c=u", "a=s"}, {"F=v", "a=t"}, {"z=1"}}
					seqs(len(pool), 1, n, func(s []int) bool {
						return y(Case{fmt.Sprint(s), func(t *T) {
							e := newEnv(t)
							for k, i := range s {
								free := k%2 == 1
								expect(t, "history", fmt.Sprintf("call %d of %v with %v", k, s, pool[i]), c22GotArgs(e.scope, c22Dict(pool[i], k), free), c22WantArgs(pool[i], free))
							}
							t.Sig("%v", s)
						}})
					})
				}),
			},
			{
				Name: "declarations", Bound: "13 types that cannot be declared and 4 tags, with each value",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					bad := []reflect.Type{
						c22T[int32](), c22T[uint](), c22T[int8](), c22T[map[string]any](), c22T[struct{}](), c22T[*string](), c22T[[]int64](), c22T[[]float64](),
						c22T[chan int](), c22T[func()](), c22T[error](), c22T[[2]string](), c22T[[]*string](),
					}
					vals := c22Vals()
					for _, typ := range bad {
						for i := range vals {
							v := &vals[i]
							if !y(Case{fmt.Sprintf("%s to %v", v.name, typ), func(t *T) {
								e := newEnv(t)
								for k := 0; k < 2; k++ {
									for _, free := range []bool{false, true} {
										expect(t, "declared", fmt.Sprintf("%s to the undeclarable type %v", v.name, typ), c22Extract(bg, e.scope, typ, D("x", v.v), free), c22Error)
									}
								}
								t.Sig("%v", typ)
							}}) {
								return
							}
						}
					}
					for _, tag := range []string{"required,field=x", "field=x,required", "field=x", "optional,field=x,doc=y"} {
						for n := 0; n < 3; n++ {
							if !y(Case{fmt.Sprintf("%s with %d arguments", tag, n), func(t *T) {
								e := newEnv(t)
								target := reflect.New(c22One(c22T[string](), tag))
								target.Elem().Field(0).SetString("def")
								args, want := D(), "def"
								if n > 0 {
									args.Set("x", "s")
									want = "s"
								} else if strings.Contains(tag, "required") {
									want = c22Error
								}
								if n > 1 {
									args.Set("X", "s")
									want = c22Error
								}
								got := ""
								if err := arg_parser.ExtractArgsWithContext(bg, e.scope, args, target.Interface()); err != nil {
									got = c22Error
								} else {
									got = target.Elem().Field(0).String()
								}
								expect(t, "tag", fmt.Sprintf("tag %s with %v", tag, args), got, want)
								t.Sig("%s", got)
							}}) {
								return
							}
						}
					}
					y(Case{"unexported", func(t *T) {
						e := newEnv(t)
						for k := 0; k < 2; k++ {
							if err := arg_parser.ExtractArgsWithContext(bg, e.scope, D("x", 1), &c22Alien{}); err == nil {
								t.Fail("declared", "an unexported field was accepted")
							}
						}
					}})
				}),
			},
			{
				Name: "not a dict in **", Bound: "all values in **, immediate and lazy, alone and with another argument",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := c22Vals()
					for i := range vals {
						v := &vals[i]
						if !y(Case{v.name, func(t *T) {
							e := newEnv(t)
							want := c22Error
							if d, ok := v.v.(*ordereddict.Dict); ok && d != nil && d.Len() == 0 {
								want = c22WantArgs([]string{"a=s"}, false)
							}
							n := 0
							for k, x := range []any{v.v, c22Lazy{v.v, &n}} {
								expect(t, "**", fmt.Sprintf("%s in ** (%d)", v.name, k), c22GotArgs(e.scope, D("a", "s", "**", x), false), want)
								c22GotArgs(e.scope, D("**", x), true)
							}
							t.Sig("%s", want)
						}}) {
							return
						}
					}
				}),
			},
			{
				Name: "strings", Bound: "GetStringArg of all values, immediate, lazy and absent",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := c22Vals()
					for i := range vals {
						v := &vals[i]
						if !y(Case{v.name, func(t *T) {
							e := newEnv(t)
							want, _ := v.v.(string)
							n := 0
							for k, d := range []*ordereddict.Dict{D("x", v.v), D("x", c22Lazy{v.v, &n}), D("y", v.v)} {
								w := want
								if k == 2 {
									w = ""
								}
								expect(t, "string", fmt.Sprintf("GetStringArg of %s (%d)", v.name, k), arg_parser.GetStringArg(bg, e.scope, d, "x"), w)
							}
							t.Sig("%s", want)
						}}) {
							return
						}
					}
				}),
			},
		},
	})
}
