package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	vfilter "REPO"
	"REPO/arg_parser"
	"REPO/protocols"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// Pointers to numbers are the numbers (C07).

func c07Pointers() [][2]any {
	var r [][2]any
	add := func(v, p any) { r = append(r, [2]any{v, p}) }
	for _, i := range []int64{0, 1, 5, -3, 127} {
		add(int64(i), c22Ptr(int64(i)))
		add(int(i), c22Ptr(int(i)))
		add(int8(i), c22Ptr(int8(i)))
		add(int16(i), c22Ptr(int16(i)))
		add(int32(i), c22Ptr(int32(i)))
		add(float64(i)/2, c22Ptr(float64(i)/2))
		add(float32(i)/2, c22Ptr(float32(i)/2))
		if i >= 0 {
			add(uint(i), c22Ptr(uint(i)))
			add(uint8(i), c22Ptr(uint8(i)))
			add(uint16(i), c22Ptr(uint16(i)))
			add(uint32(i), c22Ptr(uint32(i)))
			add(uint64(i), c22Ptr(uint64(i)))
		}
	}
	return r
}

var c07PointerOps = []string{"x + y", "x - y", "x * y", "x / y", "x < y", "x <= y", "x > y", "x >= y", "x = y", "x != y", "x IN (y, )", "x IN (1, 2.5)"}

func c07PointerCase(t *T, i int) {
	e := newEnv(t)
	ps := c07Pointers()
	others := append([][2]any{{types.Null{}, types.Null{}}, {"5", "5"}, {true, true}, {[]any{int64(5)}, []any{int64(5)}}}, ps...)
	eval := func(x, y any, op string) string {
		s := e.scope.Copy()
		defer s.Close()
		s.AppendVars(D("x", x, "y", y))
		return showRows(collect(bg, s, mustParse(t, "SELECT "+op+" FROM scope()")[0]))
	}
	all := ""
	for i, op := range c07PointerOps {
		if i > 0 {
			all += ", "
		}
		all += fmt.Sprintf("%s AS r%d", op, i)
	}
	for _, o := range others {
		for side := 0; side < 2; side++ {
			x, y := ps[i], o
			if side == 1 {
				x, y = y, x
			}
			want := eval(x[0], y[0], all)
			for m := 1; m < 4; m++ {
				a, b := x[m&1], y[m>>1]
				expect(t, "pointer", fmt.Sprintf("%s with x=%T(%v), y=%T(%v)", all, a, x[0], b, y[0]), eval(a, b, all), want)
			}
		}
	}
	for _, op := range []string{"-x", "NOT x = 1", "if(condition=x = 5, then=1, else=2)", "x AND TRUE", "format(format='%v', args=[x + 0, ])"} {
		if op == "x AND TRUE" && fmt.Sprint(ps[i][0]) == "0" {
			continue
		}
		expect(t, "pointer", fmt.Sprintf("%s with x=%T(%v)", op, ps[i][1], ps[i][0]), eval(ps[i][1], nil, op+" AS r"), eval(ps[i][0], nil, op+" AS r"))
	}
	t.Sig("%d", i)
}

// Structs whose members the application lists (C08).

type c08Wrapped struct {
	A      int64
	P      *int64
	L      []int64
	Other  string
	hidden int64
	calls  map[string]int
}

func (self *c08Wrapped) M() string            { self.calls["M"]++; return "m" }
func (self *c08Wrapped) E() (string, error)   { self.calls["E"]++; return "e", fmt.Errorf("x") }
func (self *c08Wrapped) N() types.Any         { self.calls["N"]++; return nil }
func (self *c08Wrapped) Q() *c08Wrapped       { self.calls["Q"]++; return nil }
func (self *c08Wrapped) Arg(a int) string     { self.calls["Arg"]++; return "a" }
func (self *c08Wrapped) None()                { self.calls["None"]++ }
func (self *c08Wrapped) Three() (a, b, c int) { self.calls["Three"]++; return }
func (self *c08Wrapped) Secret() string       { self.calls["Secret"]++; return "s" }

// What the members are, seen through a pointer.
var c08WrapWant = map[string]string{"A": "1", "P": "NULL", "L": "[7,8]", "hidden": "NULL", "M": `"m"`, "E": `"e"`, "N": "NULL", "Q": "NULL", "Arg": "NULL", "None": "NULL", "Three": "NULL", "Nope": "NULL"}

var c08WrapAll = []string{"A", "P", "L", "hidden", "M", "E", "N", "Q", "Arg", "None", "Three", "Nope"}

// c08Wrapper registers the attributes of the mask, by pointer or value.
func c08Wrapper(t *T, mask int, byPtr bool) {
	e := newEnv(t)
	var attrs []string
	listed := map[string]bool{}
	for i, a := range c08WrapAll {
		if mask>>i&1 != 0 {
			attrs = append(attrs, a)
			listed[a] = true
		}
	}
	var base any = c08Wrapped{}
	if byPtr {
		base = &c08Wrapped{}
	}
	e.scope.AddProtocolImpl(protocols.NewLazyStructWrapper(base, attrs...))
	s := &c08Wrapped{A: 1, L: []int64{7, 8}, Other: "o", hidden: 3, calls: map[string]int{}}
	plain := struct{ A, Other int64 }{5, 6}
	e.set("s", s)
	e.set("n", (*c08Wrapped)(nil))
	e.set("l", []any{s, types.Null{}, s})
	e.set("plain", plain)
	e.set("d", D("A", int64(9), "M", "mm"))
	e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "src", Function: listRows(func() []types.Row { return []types.Row{s, s} })})
	expect(t, "members", fmt.Sprint(attrs), fmt.Sprint(e.scope.GetMembers(s)), fmt.Sprint(attrs))
	want := func(a string) string {
		if !listed[a] {
			return "NULL"
		}
		return c08WrapWant[a]
	}
	// Members that cannot be accessed are not there.
	present := func(a string) bool {
		return listed[a] && a != "hidden" && a != "Arg" && a != "Nope"
	}
	one := func(text string) string {
		rows := e.query("SELECT " + text + " AS r FROM scope()")
		if len(rows) != 1 {
			return showRows(rows)
		}
		v, _ := rows[0].Get("r")
		return show(v)
	}
	for _, a := range append([]string{"Other", "Secret"}, c08WrapAll...) {
		s.calls = map[string]int{}
		expect(t, "member", fmt.Sprintf("s.%s of %v", a, attrs), one("s."+a), want(a))
		n := 0
		if listed[a] && (a == "M" || a == "E" || a == "Q") {
			n = 1
		}
		if a != "N" && a != "None" && a != "Three" && s.calls[a] != n || len(s.calls) > 1 {
			t.Fail("calls", "s.%s of %v called %v", a, attrs, s.calls)
		}
		expect(t, "member", fmt.Sprintf("get(s, %s) of %v", a, attrs), one(fmt.Sprintf("get(item=s, member='%s')", a)), want(a))
		expect(t, "member", fmt.Sprintf("l.%s of %v", a, attrs), one("l."+a), map[bool]string{true: fmt.Sprintf("[%s,NULL,%s]", want(a), want(a)), false: "[NULL]"}[present(a)])
		expect(t, "member", fmt.Sprintf("n.%s of %v", a, attrs), one("n."+a), "NULL")
		expect(t, "member", fmt.Sprintf("rows of %v", attrs), showRows(e.query("SELECT s."+a+" AS r FROM scope() WHERE s."+a+" OR TRUE ORDER BY r")), "{r:"+want(a)+"}")
	}
	// Rows of such structs.
	var cells []string
	for _, a := range attrs {
		if present(a) {
			cells = append(cells, a+":"+want(a))
		}
	}
	row := "{" + strings.Join(cells, ",") + "}"
	if len(attrs) > 0 {
		s.calls = map[string]int{}
		expect(t, "rows", fmt.Sprint(attrs), showRows(e.query("SELECT * FROM src()")), row+";"+row)
		for a, n := range s.calls {
			if n != 2 && a != "N" && a != "None" && a != "Three" {
				t.Fail("calls", "SELECT * of 2 rows with %v calls %s %d times", attrs, a, n)
			}
		}
		v := types.Any(nil)
		if listed["M"] {
			v, _ = e.scope.Associative(s, "M")
			b, err := json.Marshal(v)
			expect(t, "json", fmt.Sprint(attrs), fmt.Sprint(string(b), err), `"m"<nil>`)
		}
		_ = v
	}
	// Others are as ever.
	expect(t, "others", fmt.Sprint(attrs), one("(plain.A, plain.Other, plain.M, d.A, d.M, l[1].A, s[0])"), `[5,6,NULL,9,"mm",NULL,NULL]`)
	settle(t, fmt.Sprint(attrs))
	t.Sig("%v", attrs)
}

// Arguments of types the application parses by itself (C22).

type c22Custom struct{ v string }
type c22Custom2 struct{ v string }

type c22CustomArgs struct {
	A c22Custom  `vfilter:"optional,field=a"`
	B string     `vfilter:"optional,field=b"`
	C c22Custom2 `vfilter:"required,field=c"`
	D c22Custom  `vfilter:"optional,field=d"`
}

func init() {
	arg_parser.RegisterParser(c22Custom{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, value interface{}) (interface{}, error) {
		if l, ok := value.(types.LazyExpr); ok {
			value = l.ReduceWithScope(ctx, scope)
		}
		if s, ok := value.(string); ok {
			return c22Custom{fmt.Sprintf("%s of %d", s, args.Len())}, nil
		}
		return nil, fmt.Errorf("custom error")
	})
	arg_parser.RegisterParser(c22Custom2{}, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, value interface{}) (interface{}, error) {
		return c22Custom2{fmt.Sprintf("%T", value)}, nil
	})
}

// c22Parsers: the arguments of the mask, a and d good or bad.
func c22Parsers(t *T, mask, bad int) {
	e := newEnv(t)
	got := "not called"
	ran := func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		a := &c22CustomArgs{A: c22Custom{"def"}, D: c22Custom{"def"}}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
			got = "error " + err.Error()
			return got
		}
		got = fmt.Sprintf("%s|%s|%v|%s", a.A.v, a.B, a.C.v != "", a.D.v)
		return got
	}
	e.scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "f", Function: ran})
	d, n := D(), 0
	var l []string
	vals := map[string]string{"b": "s"}
	for i, name := range []string{"a", "b", "c", "d"} {
		if mask>>i&1 == 0 {
			continue
		}
		n++
		var v any = "s"
		lit := "'s'"
		if name == "a" && bad&1 != 0 || name == "d" && bad&2 != 0 {
			v, lit = int64(1), "1"
		}
		d.Set(name, v)
		l = append(l, name+"="+lit)
		vals[name] = fmt.Sprint(v)
	}
	field := func(bit int, name string) string {
		if mask&bit == 0 {
			return "def"
		}
		return fmt.Sprintf("s of %d", n)
	}
	want := ""
	switch {
	case mask&1 != 0 && bad&1 != 0:
		want = "error Field a custom error"
	case mask&4 == 0:
		want = "error Field c is required"
	case mask&8 != 0 && bad&2 != 0:
		want = "error Field d custom error"
	default:
		b := ""
		if mask&2 != 0 {
			b = "s"
		}
		want = fmt.Sprintf("%s|%s|true|%s", field(1, "a"), b, field(8, "d"))
	}
	what := fmt.Sprint(l)
	ran(bg, e.scope, d)
	expect(t, "parser", what, got, want)
	got = "not called"
	e.query("SELECT f(" + strings.Join(l, ", ") + ") AS r FROM scope()")
	expect(t, "parser", "call with "+what, got, want)
	got = "not called"
	e.query("SELECT f(`**`=dict(" + strings.Join(l, ", ") + ")) AS r FROM scope()")
	// There is one argument for each then too.
	expect(t, "parser", "** of "+what, strings.ReplaceAll(got, " of 1", fmt.Sprintf(" of %d", n)), want)
	_ = reflect.TypeOf(vals)
	settle(t, what)
	t.Sig("%s", want)
}

// c08DictMethods: the methods of dicts, by any access, at any depth (C08).
func c08DictMethods(t *T, seq []int) {
	e := newEnv(t)
	vals := []any{int64(1), "x", types.Null{}, D("k", int64(2)), []any{int64(1)}}
	d := D()
	var keys, values, pairs []string
	for i, v := range seq {
		k := fmt.Sprintf("k%d", i)
		d.Set(k, vals[v])
		keys = append(keys, fmt.Sprintf("%q", k))
		values = append(values, show(vals[v]))
		pairs = append(pairs, k+":"+show(vals[v]))
	}
	e.set("d", d)
	e.set("o", D("sub", d))
	e.set("l", []any{d, d})
	want := map[string]string{
		"@Keys": "[" + strings.Join(keys, ",") + "]", "@Values": "[" + strings.Join(values, ",") + "]", "@Len": fmt.Sprint(len(seq)),
		"@Nope": "NULL", "@Set": "NULL", "@keys": "NULL", "Keys": "NULL", "Len": "NULL", "@MarshalJSON": "NULL",
	}
	one := func(text string) string {
		rows := e.query("SELECT " + text + " AS r FROM scope()")
		if len(rows) != 1 {
			return showRows(rows)
		}
		v, _ := rows[0].Get("r")
		return show(v)
	}
	for m, w := range want {
		// A value that is a list without elements may be shown as such.
		expect(t, "method", fmt.Sprintf("d.%s of %v", m, pairs), one("d.`"+m+"`"), w)
		expect(t, "method", fmt.Sprintf("get(d, %s) of %v", m, pairs), one("get(item=d, member='"+m+"')"), w)
		expect(t, "method", fmt.Sprintf("o.sub.%s of %v", m, pairs), one("o.sub.`"+m+"`"), w)
		expect(t, "method", fmt.Sprintf("l[1].%s of %v", m, pairs), one("l[1].`"+m+"`"), w)
	}
	for i := range seq {
		expect(t, "items", fmt.Sprint(pairs), one(fmt.Sprintf("d.`@Items`[%d].Key", i)), keys[i])
		expect(t, "items", fmt.Sprint(pairs), one(fmt.Sprintf("d.`@Items`[%d].Value", i)), values[i])
	}
	expect(t, "items", fmt.Sprint(pairs), one("len(list=d.`@Items`)"), fmt.Sprint(len(seq)))
	expect(t, "unchanged", "", show(d), "{"+strings.Join(pairs, ",")+"}")
	settle(t, fmt.Sprint(seq))
	t.Sig("%v", pairs)
}

// c07Shared: sums of lists are new lists: what is made of a list, now or
// later, by whom and in which order, does not show in it or in other sums
// of it (C07).
func c07Shared(t *T, kind, n int) {
	items := func(from, n int) (r []string) {
		for i := 0; i < n; i++ {
			r = append(r, fmt.Sprint(from+i))
		}
		return r
	}
	lit := func(s []string) string {
		if len(s) == 0 {
			return "()"
		}
		return "(" + strings.Join(s, ", ") + ", )"
	}
	list := func(parts ...[]string) string {
		var r []string
		for _, p := range parts {
			r = append(r, p...)
		}
		return "[" + strings.Join(r, ",") + "]"
	}
	e := newEnv(t)
	x := items(1, n)
	var backing []any
	switch kind {
	case 0: // A literal.
		e.query("LET X <= " + lit(x))
	case 1: // A sum, which may have been grown.
		e.query("LET X <= " + lit(x[:n/2]) + " + " + lit(x[n/2:]))
	case 2: // Many sums.
		q := "(1, )"
		for _, i := range x[1:] {
			q += " + (" + i + ", )"
		}
		e.query("LET X <= " + q)
	case 3: // Of the application, with room behind it that it uses.
		for i := 0; i < n+4; i++ {
			backing = append(backing, int64(1+i))
		}
		e.set("X", backing[:n])
	case 4: // The same of another type.
		s := make([]int64, n, n+4)
		for i := range s {
			s[i] = int64(1 + i)
		}
		e.set("X", s)
	case 5: // Made by an aggregate.
		e.query("LET R = SELECT enumerate(items=_value) AS L FROM foreach(row=" + lit(x) + ") GROUP BY 1")
		e.query("LET X <= R[0].L")
	}
	one := func(text string) string {
		rows := e.query("SELECT " + text + " AS r FROM scope()")
		if len(rows) != 1 {
			return showRows(rows)
		}
		v, _ := rows[0].Get("r")
		return show(v)
	}
	e.query("LET f(x) = X + x")
	what := fmt.Sprintf("a list of %d, kind %d", n, kind)
	for k := 1; k <= 3; k++ {
		a, b := items(100, k), items(200, k)
		e.query("LET A <= X + " + lit(a))
		e.query("LET B <= X + " + lit(b))
		e.query("LET C <= A + " + lit(b))
		e.query("LET E <= A + " + lit(a))
		expect(t, "shared", what+": sums, one after the other", one("(A, B, C, E, X)"),
			"["+list(x, a)+","+list(x, b)+","+list(x, a, b)+","+list(x, a, a)+","+list(x)+"]")
		expect(t, "shared", what+": sums side by side",
			showRows(e.query("SELECT X + "+lit(a)+" AS A, X + "+lit(b)+" AS B, X + 7 AS C, 7 + X AS D, X + X AS E, X FROM scope()")),
			"{A:"+list(x, a)+",B:"+list(x, b)+",C:"+list(x, []string{"7"})+",D:"+list([]string{"7"}, x)+",E:"+list(x, x)+",X:"+list(x)+"}")
		expect(t, "shared", what+": a sum of each row",
			showRows(e.query("SELECT X + _value AS L FROM foreach(row=(1, 2, 3))")),
			"{L:"+list(x, []string{"1"})+"};{L:"+list(x, []string{"2"})+"};{L:"+list(x, []string{"3"})+"}")
		expect(t, "shared", what+": a function of it", one("f(x=1) + f(x=2)"), list(x, []string{"1"}, x, []string{"2"}))
	}
	for i, v := range backing {
		expect(t, "backing", what, show(v), fmt.Sprint(1+i))
	}
	settle(t, what)
	t.Sig("%s", list(x))
}

// c25Elements: foreach over lists whose elements are of any kind (C25).
func c25Elements(t *T, seq []int) {
	type st struct{ A int64 }
	kinds := []struct {
		v   any
		row string // "" for none
	}{
		{D(), "{}"},
		{D("_value", int64(7), "b", int64(1)), "{_value:7,b:1}"},
		{D("b", types.Null{}), "{b:NULL}"},
		{types.Null{}, ""},
		{nil, ""},
		{[]any{}, "{_value:[]}"},
		{[]any{int64(1)}, "{_value:[1]}"},
		{int64(0), "{_value:0}"},
		{"", "{_value:}"},
		{false, "{_value:false}"},
	}
	var list []any
	var want []string
	for _, i := range seq {
		list = append(list, kinds[i].v)
		if kinds[i].row == "" {
			continue
		}
		if kinds[i].v == "" {
			want = append(want, "{_value:"+show("")+"}")
			continue
		}
		want = append(want, kinds[i].row)
	}
	if list == nil {
		list = []any{}
	}
	e := newEnv(t)
	e.set("L", list)
	e.set("O", D("L", list))
	e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "src", Function: listRows(func() []types.Row { return []types.Row{D("c", list)} })})
	for _, from := range []string{"L", "O.L", "{ SELECT * FROM foreach(row=L) }"} {
		q := "SELECT * FROM foreach(row=" + from + ")"
		expect(t, "elements", fmt.Sprint(q, seq), showRows(e.query(q)), strings.Join(want, ";"))
		q = "SELECT * FROM foreach(row=" + from + ", query={ SELECT 5 AS r FROM scope() })"
		expect(t, "queries", fmt.Sprint(q, seq), fmt.Sprint(len(e.query(q))), fmt.Sprint(len(want)))
	}
	settle(t, fmt.Sprint(seq))
	t.Sig("%v", want)
}

// bigNumbers are the numbers around the powers of two.
func bigNumbers() (r []string) {
	r = append(r, "0", "1")
	for b := 2; b < 64; b++ {
		for d := int64(-1); d < 2; d++ {
			if b == 63 && d >= 0 {
				break
			}
			v := int64(1)<<b + d
			if b == 63 {
				v = 1<<63 - 1
			}
			r = append(r, fmt.Sprint(v))
		}
	}
	return r
}

// c10Numbers: numbers of any size, wherever they are, print as themselves.
func c10Numbers(t *T, n string) {
	for _, text := range []string{
		"SELECT " + n + " AS a, -" + n + " AS b, (" + n + ", -" + n + ") AS c FROM scope()",
		"SELECT * FROM vals() LIMIT " + n,
		"SELECT a, count() AS n FROM vals() GROUP BY a ORDER BY a DESC LIMIT " + n,
		"LET X = SELECT * FROM vals() LIMIT " + n + " SELECT * FROM X",
		"LET X(p=" + n + ") = p SELECT X() AS x, X(p=-" + n + ") AS y FROM scope()",
		"SELECT (1, 2, 3)[" + n + "] AS a, (1, 2, 3)[-" + n + "] AS b, (1, 2, 3)[0:" + n + "] AS c, (1, 2)[" + n + ":] AS d FROM scope()",
		"SELECT " + n + ".5 AS a, " + n + ".0 AS b, 0." + n + " AS c, -" + n + ".25 AS d FROM scope()",
		"SELECT a IN (" + n + ", 1) AS a, " + n + " + 1 AS b, " + n + " * 1.0 AS c FROM vals()",
		"SELECT dict(a=" + n + ", b=[" + n + ", " + n + "]) AS a FROM scope()",
	} {
		c10Check(t, text)
	}
}

// c03Big: limits of any size.
func c03Big(t *T, limit string) {
	for n := 0; n < 4; n++ {
		e := newEnv(t)
		want := int64(n)
		if l, _ := strconv.ParseInt(limit, 10, 64); l < want {
			want = l
		}
		for _, q := range []string{
			"SELECT * FROM gen(n=%d) LIMIT %s",
			"SELECT i + 1 AS j FROM gen(n=%d) WHERE i >= 0 LIMIT %s",
			"SELECT * FROM gen(n=%d) ORDER BY i DESC LIMIT %s",
			"SELECT i, count() AS c FROM gen(n=%d) GROUP BY i ORDER BY c LIMIT %s",
			"SELECT i, count() AS c FROM gen(n=%d) GROUP BY i LIMIT %s",
			"LET X <= SELECT * FROM gen(n=%d) LIMIT %s SELECT * FROM X",
			"SELECT * FROM foreach(row={ SELECT * FROM gen(n=%d) LIMIT %s })",
		} {
			text := fmt.Sprintf(q, n, limit)
			expect(t, "limit", text, fmt.Sprint(len(e.query(text))), fmt.Sprint(want))
		}
		settle(t, "LIMIT "+limit)
	}
	t.Sig("%s", limit)
}
