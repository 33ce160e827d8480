package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

type val struct {
	name string
	v    any
	num  bool // a number (not NaN, fits int64 or float64)
	isf  bool
	i    int64
	f    float64
}

type c07Struct struct {
	A int64
	B string
}
type c07Str string
type c07Stringer struct{}

func (c07Stringer) String() string { return "s" }

func c07Vals() []val {
	var vs []val
	num := func(i int64, pointers bool, mk ...any) {
		for _, m := range mk {
			vs = append(vs, val{name: fmt.Sprintf("%T(%d)", m, i), v: m, num: true, i: i, f: float64(i)})
		}
	}
	for _, i := range []int64{-2, -1, 0, 1, 2, 7} {
		num(i, false, int(i), int8(i), int16(i), int32(i), i)
		if i >= 0 {
			num(i, false, uint(i), uint8(i), uint16(i), uint32(i), uint64(i))
		}
	}
	num(1<<40, false, int64(1<<40), uint64(1<<40))
	num(math.MaxInt64, false, int64(math.MaxInt64))
	num(math.MinInt64, false, int64(math.MinInt64))
	// Limits of each width.
	num(math.MaxUint8, false, uint8(math.MaxUint8))
	num(math.MaxUint16, false, uint16(math.MaxUint16), int32(math.MaxUint16))
	num(math.MaxUint32, false, uint32(math.MaxUint32), uint(math.MaxUint32))
	num(math.MinInt8, false, int8(math.MinInt8))
	num(math.MinInt16, false, int16(math.MinInt16))
	num(math.MinInt32, false, int32(math.MinInt32), int(math.MinInt32))
	for _, f := range []float64{-1.5, -1, 0, 0.5, 1, 2, 2.5, 1e18} {
		vs = append(vs, val{name: fmt.Sprintf("float64(%v)", f), v: f, num: true, isf: true, f: f})
		if f < 10 {
			vs = append(vs, val{name: fmt.Sprintf("float32(%v)", f), v: float32(f), num: true, isf: true, f: f})
		}
	}
	p64, p8, pf := int64(2), uint8(1), 0.5
	vs = append(vs,
		val{name: "*int64(2)", v: &p64, num: true, i: 2, f: 2},
		val{name: "*uint8(1)", v: &p8, num: true, i: 1, f: 1},
		val{name: "*float64(0.5)", v: &pf, num: true, isf: true, f: 0.5},
	)
	o := func(name string, v any) { vs = append(vs, val{name: name, v: v}) }
	o("nil", nil)
	o("Null", types.Null{})
	o("*Null", &types.Null{})
	o("(*int64)(nil)", (*int64)(nil))
	o("(*float64)(nil)", (*float64)(nil))
	o("(*string)(nil)", (*string)(nil))
	o("(*Dict)(nil)", (*ordereddict.Dict)(nil))
	o("(*Time)(nil)", (*time.Time)(nil))
	o("(*Null)(nil)", (*types.Null)(nil))
	o("[]any(nil)", []any(nil))
	o("map(nil)", map[string]any(nil))
	o("true", true)
	o("false", false)
	o("NaN", math.NaN())
	o("Inf", math.Inf(1))
	o("-Inf", math.Inf(-1))
	o("MaxUint64", uint64(math.MaxUint64))
	for _, s := range []string{"", "a", "b", "ab", "1", "2.5", "(", "A"} {
		o(fmt.Sprintf("%q", s), s)
	}
	ps := "a"
	o("*string", &ps)
	o("named string", c07Str("a"))
	o("[]byte", []byte("ab"))
	o("[]", []any{})
	o("[1]", []any{int64(1)})
	o("[1,2]", []any{int64(1), int64(2)})
	o("[nil]", []any{nil})
	o("[0,1]", []any{int64(0), int64(1)})
	// Appending to these must not write to them.
	o("[1] with room", append(make([]any, 0, 4), int64(1)))
	o("[]Any with room", append(make([]types.Any, 0, 4), int64(1), int64(2)))
	o("[]Row with room", append(make([]types.Row, 0, 4), types.Row(D("x", int64(1)))))
	o("['a']", []any{"a"})
	o("[[1]]", []any{[]any{int64(1)}})
	o("[]string{a,b}", []string{"a", "b"})
	o("[]int64{1}", []int64{1})
	o("[]Row", []types.Row{D("x", int64(1))})
	o("[2]int", [2]int{1, 2})
	o("*[]any", &[]any{int64(1)})
	o("{}", D())
	o("{a:1}", D("a", int64(1)))
	o("{a:1.0}", D("a", 1.0))
	o("{a:NULL}", D("a", types.Null{}))
	o("{a:nil}", D("a", nil))
	o("{b:{a:1}}", D("b", D("a", int64(1))))
	o("map", map[string]any{"a": 1})
	o("struct", c07Struct{1, "b"})
	o("*struct", &c07Struct{1, "b"})
	o("(*struct)(nil)", (*c07Struct)(nil))
	o("stringer", c07Stringer{})
	o("error", errors.New("e"))
	tm := time.Unix(1, 0).UTC()
	o("Time(1)", tm)
	o("*Time(1)", &tm)
	o("Time(2)", time.Unix(2, 0).UTC())
	o("Time(zero)", time.Time{})
	o("func", func() {})
	o("func any", func() any { return 1 })
	o("chan", make(chan int, 1))
	o("complex", complex(1, 2))
	return vs
}

// Values that need a scope: stored queries, lazy expressions.
func c07Dyn(e *Env) []val {
	var vs []val
	e.query("LET SQ = SELECT i FROM gen(n=2) LET SQ0 = SELECT i FROM gen(n=0) LET SE = 1 LET SES = 'a' LET SM <= SELECT i FROM gen(n=1) LET SQE = SELECT i FROM gen(n=1) WHERE FALSE")
	for _, n := range []string{"SQ", "SQ0", "SE", "SES", "SM", "SQE"} {
		v, _ := e.scope.Resolve(n)
		vs = append(vs, val{name: n, v: v})
	}
	vs = append(vs, val{name: "scope", v: e.scope})
	lr := vfilter.NewLazyRow(bg, e.scope)
	vs = append(vs, val{name: "lazyrow", v: lr})
	vs = append(vs, val{name: "lazy nil", v: vfilter.NewLazyExpr(bg, e.scope, nil)})
	vs = append(vs, val{name: "lazy 1", v: &constLazy{int64(1)}})
	vs = append(vs, val{name: "lazy 'a'", v: &constLazy{"a"}})
	vs = append(vs, val{name: "lazy Go nil", v: &constLazy{nil}})
	return vs
}

type constLazy struct{ v any }

func (c *constLazy) Reduce(ctx context.Context) types.Any                             { return c.v }
func (c *constLazy) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any { return c.v }

var c07Patterns = []string{"", ".", ".*", "a", "A", "^a$", "^A$", "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\b", "\\B", "[a-z]", "[A-Z]", "[^a]", "(?-i)a", "(?-i)A", "a|b", "(", "[", "*", "a{2}", "a.b", "(?s)a.b", "(?m)^b", "^b", "\\.", "\\x41", "é", "É", "__re", "a\x00", "\\Qa.b\\E", "a.b "}
var c07Texts = []string{"", "a", "A", "b", "aa", "a b", "a.b", "a\nb", "1", " ", "_", "é", "É", "(", "__rea", "a\x00b", "ab"}

// c07Regex: what a pattern matches does not depend on the patterns used
// before in the same scope.
func c07Regex(t *T, p string) {
	want := func(p, s string) bool {
		if p == "." {
			// The match all pattern.
			return true
		}
		re, err := regexp.Compile("(?i)" + p)
		return err == nil && re.MatchString(s)
	}
	for _, q := range c07Patterns {
		e := newEnv(t)
		child := e.scope.Copy()
		for i, c := range []struct {
			s types.Scope
			p string
		}{{e.scope, p}, {e.scope, q}, {child, p}, {child, q}, {e.scope, p}} {
			for _, s := range c07Texts {
				if got := c.s.Match(c.p, s); got != want(c.p, s) {
					t.Fail("regex", "%q =~ %q (use %d, with %q) is %v", s, c.p, i, q, got)
				}
			}
			if got := c.s.Match(c.p, []string{"zz", "a"}); got != (want(c.p, "zz") || want(c.p, "a")) {
				t.Fail("regex-list", "['zz','a'] =~ %q (use %d, with %q) is %v", c.p, i, q, got)
			}
		}
		e.set("P", p)
		e.set("Q", q)
		for _, s := range c07Texts {
			e.set("S", s)
			expect(t, "regex-query", fmt.Sprintf("%q with %q and %q", s, p, q), showRows(e.query("SELECT S =~ P AS a, S =~ Q AS b, S =~ P AS c FROM scope()")),
				fmt.Sprintf("{a:%v,b:%v,c:%v}", want(p, s), want(q, s), want(p, s)))
		}
		child.Close()
	}
	t.Sig("%s", p)
}

func c07Laws(t *T, e *Env, a, b val) {
	s := e.scope
	what := a.name + " , " + b.name
	eq, eqr := s.Eq(a.v, b.v), s.Eq(b.v, a.v)
	lt, gt := s.Lt(a.v, b.v), s.Gt(a.v, b.v)
	ltr, gtr := s.Lt(b.v, a.v), s.Gt(b.v, a.v)
	add, sub, mul, div := s.Add(a.v, b.v), s.Sub(a.v, b.v), s.Mul(a.v, b.v), s.Div(a.v, b.v)
	in := s.Membership(a.v, b.v)
	match := s.Match(b.v, a.v)
	tb := s.Bool(a.v)
	t.Sig("%s: %v %v %v %s %s %s %s %v %v %v", what, eq, lt, gt, show(add), show(sub), show(mul), show(div), in, match, tb)
	if a.num && b.num {
		weq, wlt := a.f == b.f, a.f < b.f
		if !a.isf && !b.isf {
			weq, wlt = a.i == b.i, a.i < b.i
		}
		wgt := !weq && !wlt
		if eq != weq {
			t.Fail("num-eq", "%s: = gives %v", what, eq)
		}
		if lt != wlt {
			t.Fail("num-lt", "%s: < gives %v", what, lt)
		}
		if gt != wgt {
			t.Fail("num-gt", "%s: > gives %v", what, gt)
		}
		chk := func(op string, got any, wi int64, wf float64) {
			if a.isf || b.isf {
				f, ok := got.(float64)
				if !ok || f != wf {
					t.Fail("num-"+op, "%s: %s gives %T %v want %v", what, op, got, got, wf)
				}
				return
			}
			i, ok := got.(int64)
			if !ok || i != wi {
				t.Fail("num-"+op, "%s: %s gives %T %v want %v", what, op, got, got, wi)
			}
		}
		chk("add", add, a.i+b.i, a.f+b.f)
		chk("sub", sub, a.i-b.i, a.f-b.f)
		chk("mul", mul, a.i*b.i, a.f*b.f)
		if b.f == 0 {
			if show(div) != "NULL" {
				t.Fail("num-div0", "%s: / gives %v", what, div)
			}
		} else if f, ok := div.(float64); !ok || f != a.f/b.f {
			t.Fail("num-div", "%s: / gives %T %v want %v", what, div, div, a.f/b.f)
		}
		if tb != (a.f > 0) {
			t.Fail("num-bool", "%s: truth value of the first is %v", what, tb)
		}
	}
	// Laws that hold for all values.
	if eq != eqr {
		t.Fail("eq-symmetric", "%s: = gives %v, the other way round %v", what, eq, eqr)
	}
	if lt != gtr || gt != ltr {
		t.Fail("lt-gt-converse", "%s: a<b %v b>a %v; a>b %v b<a %v", what, lt, gtr, gt, ltr)
	}
	n := 0
	for _, x := range []bool{eq, lt, gt} {
		if x {
			n++
		}
	}
	if n > 1 {
		t.Fail("trichotomy", "%s: = %v < %v > %v", what, eq, lt, gt)
	}
	sa, aok := a.v.(string)
	sb, bok := b.v.(string)
	if aok && bok {
		if lt != (sa < sb) || gt != (sa > sb) || eq != (sa == sb) {
			t.Fail("str-order", "%s: = %v < %v > %v", what, eq, lt, gt)
		}
		if add != sa+sb {
			t.Fail("str-add", "%s: + gives %v", what, add)
		}
		if in != strings.Contains(sb, sa) {
			t.Fail("str-in", "%s: IN gives %v", what, in)
		}
	}
	la, aok := a.v.([]any)
	lb, bok := b.v.([]any)
	if bok {
		w := false
		for _, x := range lb {
			w = w || s.Eq(a.v, x)
		}
		if in != w {
			t.Fail("list-in", "%s: IN gives %v", what, in)
		}
	}
	if aok && la != nil && tb != (len(la) > 0) {
		t.Fail("list-bool", "%s: truth value of the first is %v", what, tb)
	}
	if aok && bok {
		w := append(append([]any{}, la...), lb...)
		if show(add) != show(w) {
			t.Fail("list-add", "%s: + gives %s", what, show(add))
		}
	}
	if db, ok := b.v.(*ordereddict.Dict); ok && db != nil {
		if sa, ok := a.v.(string); ok {
			_, w := db.Get(sa)
			if in != w {
				t.Fail("dict-in", "%s: IN gives %v", what, in)
			}
		}
	}
	isNull := func(v val) bool {
		return v.v == nil || strings.HasSuffix(v.name, "Null") || strings.HasPrefix(v.name, "lazy ") && strings.HasSuffix(v.name, "nil") || v.name == "nil"
	}
	if isNull(a) || isNull(b) {
		if isNull(a) != isNull(b) && !strings.Contains(what, "(nil)") && eq {
			t.Fail("null-eq", "%s: = holds", what)
		}
		if isNull(a) && isNull(b) && !eq {
			t.Fail("null-eq", "%s: = does not hold", what)
		}
		if lt || gt {
			t.Fail("null-order", "%s: < %v > %v", what, lt, gt)
		}
		for op, v := range map[string]any{"-": sub, "*": mul, "/": div} {
			if show(v) != "NULL" {
				t.Fail("null-arith", "%s: %s gives %s", what, op, show(v))
			}
		}
	}
}

// c07Apart: the sums of one operand with all the others stay as they are while
// the others are formed, and so do the operands.
func c07Apart(t *T, e *Env, vs []val, i int) {
	type sum struct {
		what, shown string
		v           any
	}
	var sums []sum
	keep := func(what string, v any) { sums = append(sums, sum{what, show(v), v}) }
	for _, b := range vs {
		keep(b.name, b.v)
		keep(vs[i].name+" + "+b.name, e.scope.Add(vs[i].v, b.v))
		keep(b.name+" + "+vs[i].name, e.scope.Add(b.v, vs[i].v))
	}
	for _, s := range sums {
		if got := show(s.v); got != s.shown {
			t.Fail("apart", "%s was %s and is %s after more sums were formed", s.what, s.shown, got)
			return
		}
	}
}

var c07Ops = []string{"+", "-", "*", "/", "=", "!=", "<", "<=", ">", ">=", "IN", "=~", "AND", "OR"}

func init() {
	register(&Prop{
		ID:     "C07",
		Level:  "model_checking",
		Rule:   "totality and the algebraic laws of the operators on all pairs of operands",
		Assume: []string{"integers beyond 64 bits signed, NaN and int64/float64 pairs beyond 2^53 are only checked for totality and symmetry"},
		Suites: []Suite{
			{
				Name:  "pairs",
				Bound: "all ordered pairs over all operand types (numbers of every width, NULLs, typed nils, strings, lists, dicts, maps, structs, times, queries, lazy values, functions) x all operators",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := len(c07Vals()) + 12
					for i := 0; i < n; i++ {
						i := i
						if !y(Case{fmt.Sprintf("value %d", i), func(t *T) {
							e := newEnv(t)
							vs := append(c07Vals(), c07Dyn(e)...)
							if i >= len(vs) {
								return
							}
							t.Case = vs[i].name
							for j := range vs {
								c07Laws(t, e, vs[i], vs[j])
							}
							c07Apart(t, e, vs, i)
							settle(t, "operators")
						}}) {
							return
						}
					}
				}),
			},
			{
				Name:  "patterns",
				Bound: fmt.Sprintf("all ordered pairs of %d patterns, used one after the other, again and in a child in one scope, on %d texts; the matches are those of the regular expression package, without case", len(c07Patterns), len(c07Texts)),
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, p := range c07Patterns {
						if !y(Case{p, func(t *T) { c07Regex(t, p) }}) {
							return
						}
					}
				}),
			},
			{
				Name:  "chains",
				Bound: "all chains of up to 6 (thorough 7) of + - * / with and without a float, of up to 5 of AND and OR and of up to 3 of AND OR && || NOT over all truth values, of up to 4 (thorough 5) mixed operators, as the precedence of the grammar and the operators on pairs say",
				Gen:   cases(c07Chains),
			},
			{
				Name: "shared", NoRace: true,
				Bound: "sums of lists of 0..9 elements (thorough: 0..40) made in 6 ways, one after the other, side by side, of each row and by functions: none shows in another",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for n := 0; n <= map[Tier]int{Quick: 9, Thorough: 40}[tier]; n++ {
						for k := 0; k < 6; k++ {
							if n < 2 && k != 3 && k != 4 {
								continue // () is NULL.
							}
							if !y(Case{fmt.Sprintf("kind %d of %d", k, n), func(t *T) { c07Shared(t, k, n) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name: "pointers", NoRace: true,
				Bound: "55 pointers to numbers of every type x 59 operands x 12 operators on both sides and 5 unary ones: the results are those of the numbers",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for i := range c07Pointers() {
						if !y(Case{fmt.Sprint("pointer ", i), func(t *T) { c07PointerCase(t, i) }}) {
							return
						}
					}
				}),
			},
			{
				Name:  "unary",
				Bound: "unary minus, NOT and NOT NOT of every value as a variable, a member, the result of a call",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := len(c07Vals()) + 12
					for i := 0; i < n; i++ {
						i := i
						if !y(Case{fmt.Sprintf("value %d", i), func(t *T) {
							e := newEnv(t)
							vs := append(c07Vals(), c07Dyn(e)...)
							if i >= len(vs) {
								return
							}
							t.Case = vs[i].name
							c07Unary(t, e, vs[i])
							settle(t, "unary")
						}}) {
							return
						}
					}
				}),
			},
			{
				Name:  "expressions",
				Bound: "every operator applied in a query to every pair of variables agrees with the scope's own operator functions (a <= b is a < b or a = b, != is NOT =, precedence of NOT, AND, OR)",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := len(c07Vals()) + 12
					for _, op := range c07Ops {
						for i := 0; i < n; i++ {
							op, i := op, i
							if !y(Case{fmt.Sprintf("%s %d", op, i), func(t *T) { c07Expr(t, op, i) }}) {
								return
							}
						}
					}
				}),
			},
		},
	})
}

// c07Parse evaluates an expression over tokens by precedence climbing with the
// scope's own operator functions.
type c07P struct {
	e     *Env
	toks  []any // int64, float64, string (operator)
	loose bool  // the value is only known up to its truth
}

func (p *c07P) next() string {
	if len(p.toks) == 0 {
		return ""
	}
	s, _ := p.toks[0].(string)
	return s
}

var c07Level = map[string]int{"AND": 1, "&&": 1, "OR": 2, "||": 2, "=": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5}

func (p *c07P) expr(level int) any {
	if level == 6 {
		v := p.toks[0]
		p.toks = p.toks[1:]
		return v
	}
	s := p.e.scope
	var v any
	if level == 3 && p.next() == "NOT" {
		p.toks = p.toks[1:]
		v = !s.Bool(p.expr(3))
	} else {
		v = p.expr(level + 1)
	}
	for c07Level[p.next()] == level {
		op := p.next()
		p.toks = p.toks[1:]
		w := p.expr(level + 1)
		switch op {
		case "AND", "&&":
			v = s.Bool(v) && s.Bool(w)
		case "OR", "||":
			v = s.Bool(v) || s.Bool(w)
		case "=":
			v = s.Eq(v, w)
		case "!=":
			v = !s.Eq(v, w)
		case "<":
			v = s.Lt(v, w)
		case "<=":
			v = s.Lt(v, w) || s.Eq(v, w)
		case ">":
			v = s.Gt(v, w)
		case ">=":
			v = s.Gt(v, w) || s.Eq(v, w)
		case "+":
			v = s.Add(v, w)
		case "-":
			v = s.Sub(v, w)
		case "*":
			v = s.Mul(v, w)
		case "/":
			v = s.Div(v, w)
		}
	}
	return v
}

// c07Chain checks chains of operands and operators, as columns of one query.
type c07Chain struct {
	t    *T
	e    *Env
	cols []string
	want []any
	or   []bool
}

func (c *c07Chain) add(toks []any) {
	var text []string
	or := false
	for _, x := range toks {
		switch v := x.(type) {
		case string:
			or = or || v == "OR" || v == "||" || v == "&&"
			text = append(text, v)
		case float64:
			text = append(text, strconv.FormatFloat(v, 'f', 1, 64))
		default:
			text = append(text, fmt.Sprint(x))
		}
	}
	c.cols = append(c.cols, strings.Join(text, " "))
	c.want = append(c.want, (&c07P{e: c.e, toks: toks}).expr(1))
	c.or = append(c.or, or)
	if len(c.cols) >= 100 {
		c.flush()
	}
}

func (c *c07Chain) flush() {
	if len(c.cols) == 0 {
		return
	}
	q := "SELECT "
	for i, x := range c.cols {
		if i > 0 {
			q += ", "
		}
		q += x + fmt.Sprintf(" AS x%d", i)
	}
	rows := collect(bg, c.e.scope, mustParse(c.t, q+" FROM scope()")[0])
	for i, x := range c.cols {
		if len(rows) != 1 {
			c.t.Fail("rows", "%s: %d rows", x, len(rows))
			break
		}
		got, _ := rows[0].Get(fmt.Sprintf("x%d", i))
		want := c.want[i]
		c.t.Sig("%s %s", x, show(got))
		if c.or[i] {
			// The value of OR is only known up to its truth.
			if c.e.scope.Bool(got) != c.e.scope.Bool(want) {
				c.t.Fail("chain-or", "%s: %s want %s", x, show(got), show(want))
			}
		} else if show(got) != show(want) {
			c.t.Fail("chain", "%s: %s want %s", x, show(got), show(want))
		}
	}
	c.cols, c.want, c.or = nil, nil, nil
}

// c07Seqs calls f with all sequences of up to n of the alphabet.
func c07Seqs(n int, alpha []string, f func([]string)) {
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 {
			f(p)
		}
		if len(p) == n {
			return
		}
		for _, a := range alpha {
			rec(append(p[:len(p):len(p)], a))
		}
	}
	rec(nil)
}

// c07Chains: all chains starting with one operator.
func c07Chains(tier Tier, y func(Case) bool) {
	deep := 0
	if tier == Thorough {
		deep = 1
	}
	one := func(first string, name string, f func(c *c07Chain)) bool {
		return y(Case{name + " " + first, func(t *T) {
			c := &c07Chain{t: t, e: newEnv(t)}
			f(c)
			c.flush()
			settle(t, "chains")
		}})
	}
	operands := []any{int64(7), int64(2), int64(3), int64(5), int64(4), int64(9), int64(11), int64(6), int64(13)}
	arith := []string{"+", "-", "*", "/"}
	for _, first := range arith {
		for fl := -1; fl < 3; fl++ {
			first, fl := first, fl
			if !one(first, fmt.Sprintf("arithmetic, operand %d a float", fl), func(c *c07Chain) {
				c07Seqs(5+deep, arith, func(ops []string) {
					var toks []any
					for i, o := range append([]string{first}, ops...) {
						toks = append(toks, operands[i])
						if i == fl {
							toks[len(toks)-1] = 2.5
						}
						toks = append(toks, o)
					}
					c.add(append(toks, operands[len(ops)+1]))
				})
			}) {
				return
			}
		}
	}
	logic := []string{"AND", "OR", "&&", "||"}
	for _, first := range logic {
		first := first
		if !one(first, "logic", func(c *c07Chain) {
			c07Seqs(4, logic[:2], func(ops []string) {
				ops = append([]string{first}, ops...)
				for m := 0; m < 1<<(len(ops)+1); m++ {
					toks := []any{int64(m & 1)}
					for i, o := range ops {
						toks = append(toks, o, int64(m>>(i+1)&1))
					}
					c.add(toks)
				}
			})
			c07Seqs(2, logic, func(ops []string) {
				ops = append([]string{first}, ops...)
				for m := 0; m < 1<<(len(ops)+1); m++ {
					for not := 0; not < 1<<(len(ops)+1); not++ {
						var toks []any
						for i := 0; i <= len(ops); i++ {
							if i > 0 {
								toks = append(toks, ops[i-1])
							}
							if not>>i&1 == 1 {
								toks = append(toks, "NOT")
							}
							toks = append(toks, int64(m>>i&1))
						}
						c.add(toks)
					}
				}
			})
		}) {
			return
		}
	}
	mixed := []string{"+", "*", "<", "=", ">=", "!=", "AND", "OR", "-"}
	for _, first := range mixed {
		first := first
		if !one(first, "mixed", func(c *c07Chain) {
			c07Seqs(3+deep, mixed, func(ops []string) {
				ops = append([]string{first}, ops...)
				for m := 0; m < 4; m++ {
					// One operand after AND, OR or at the start may be negated.
					for not := -1; not <= len(ops); not++ {
						if not > 0 && c07Level[ops[not-1]] > 2 {
							continue
						}
						var toks []any
						for i := 0; i <= len(ops); i++ {
							if i > 0 {
								toks = append(toks, ops[i-1])
							}
							if i == not {
								toks = append(toks, "NOT")
							}
							toks = append(toks, int64((i*(m+1)+m/2)%3))
						}
						c.add(toks)
					}
				}
			})
		}) {
			return
		}
	}
}

// c07Unary checks the prefix operators on one value.
func c07Unary(t *T, e *Env, a val) {
	s := e.scope.Copy()
	defer s.Close()
	s.AppendVars(D("A", a.v, "D", D("a", a.v)))
	s.AppendFunctions(vfilter.GenericFunction{FunctionName: "fa", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		return a.v
	}})
	get := func(x string) any {
		rows := collect(bg, s, mustParse(t, "SELECT "+x+" AS x FROM scope()")[0])
		if len(rows) != 1 {
			t.Fail("rows", "%s of %s: %d rows", x, a.name, len(rows))
			return nil
		}
		r, _ := rows[0].Get("x")
		return r
	}
	tb := s.Bool(a.v)
	for _, x := range []string{"A", "D.a", "fa()", "(A)"} {
		if x == "fa()" && (a.v == nil || strings.Contains(a.name, "(nil)") || vexpr(a) == skipVal) {
			continue
		}
		n := get("NOT " + x)
		nn := get("NOT NOT " + x)
		t.Sig("%s %s %s %s", a.name, x, show(n), show(nn))
		if vexpr(a) == skipVal {
			continue
		}
		if n != !tb {
			t.Fail("not", "NOT %s of %s: %s", x, a.name, show(n))
		}
		if nn != tb {
			t.Fail("not-not", "NOT NOT %s of %s: %s", x, a.name, show(nn))
		}
	}
	for _, x := range []string{"A", "D.a", "fa()"} {
		if x == "fa()" && (a.v == nil || strings.Contains(a.name, "(nil)") || vexpr(a) == skipVal) {
			continue
		}
		m := get("-" + x)
		z := get("0 + -" + x)
		t.Sig("%s -%s %s %s", a.name, x, show(m), show(z))
		if !a.num {
			continue
		}
		if a.isf {
			if f, ok := utilsFloat(m); !ok || f != -a.f {
				t.Fail("neg", "-%s of %s: %T %v", x, a.name, m, m)
			}
		} else if !reflect.DeepEqual(m, -a.i) {
			t.Fail("neg", "-%s of %s: %T %v", x, a.name, m, m)
		}
		if !s.Eq(z, m) || !s.Eq(get(x+" + -"+x), int64(0)) {
			t.Fail("neg-add", "-%s of %s in a sum: %v", x, a.name, z)
		}
	}
}

func utilsFloat(v any) (float64, bool) {
	switch f := v.(type) {
	case float64:
		return f, true
	case float32:
		return float64(f), true
	}
	return 0, false
}

func c07Expr(t *T, op string, first int) {
	e := newEnv(t)
	vs := append(c07Vals(), c07Dyn(e)...)
	if first >= len(vs) {
		return
	}
	q := mustParse(t, "SELECT A "+op+" B AS x FROM scope()")[0]
	s := e.scope
	for _, a := range vs[first : first+1] {
		for _, b := range vs {
			sc := s.Copy()
			sc.AppendVars(D("A", a.v, "B", b.v))
			rows := collect(bg, sc, q)
			sc.Close()
			if len(rows) != 1 {
				t.Fail("rows", "%s %s %s: %d rows", a.name, op, b.name, len(rows))
				return
			}
			got, _ := rows[0].Get("x")
			// Values as an expression sees them.
			x, y := vexpr(a), vexpr(b)
			if x == skipVal || y == skipVal {
				continue
			}
			var want any
			switch op {
			case "+":
				want = s.Add(x, y)
			case "-":
				want = s.Sub(x, y)
			case "*":
				want = s.Mul(x, y)
			case "/":
				want = s.Div(x, y)
			case "=":
				want = s.Eq(x, y)
			case "!=":
				want = !s.Eq(x, y)
			case "<":
				want = s.Lt(x, y)
			case "<=":
				want = s.Lt(x, y) || s.Eq(x, y)
			case ">":
				want = s.Gt(x, y)
			case ">=":
				want = s.Gt(x, y) || s.Eq(x, y)
			case "IN":
				want = s.Membership(x, y)
			case "=~":
				want = s.Match(y, x)
			case "AND":
				want = s.Bool(x) && s.Bool(y)
			case "OR":
				if a.name == "map" || b.name == "map" {
					continue
				}
				g := s.Bool(got)
				if g != (s.Bool(x) || s.Bool(y)) {
					t.Fail("or", "%s OR %s: %v", a.name, b.name, got)
				}
				continue
			}
			if show(got) != show(want) {
				t.Fail("expr-"+op, "%s %s %s: %s want %s", a.name, op, b.name, show(got), show(want))
			}
		}
	}
	settle(t, "expressions")
}

type skipT struct{}

var skipVal = &skipT{}

// vexpr is the value of a variable holding v.
func vexpr(v val) any {
	switch v.v.(type) {
	case types.StoredExpression, types.Scope, types.LazyRow, types.StoredQuery, types.LazyExpr:
		return skipVal
	}
	if v.name == "map" || strings.HasPrefix(v.name, "func") || strings.Contains(v.name, "(nil)") {
		return skipVal
	}
	return v.v
}
