package main

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// Types of an application.
type (
	c27S struct{ N int }
	c27N int
	c27T string
	c27L []int
	c27M map[string]int
	c27W struct{ time.Time }
	c27F float64
)

var c27Kinds = []string{"*struct", "struct", "int", "string", "slice", "map", "embedded time", "float"}

func c27Make(kind, n int) any {
	switch kind {
	case 0:
		return &c27S{n}
	case 1:
		return c27S{n}
	case 2:
		return c27N(n)
	case 3:
		return c27T(fmt.Sprint(n))
	case 4:
		return c27L{n, n}
	case 5:
		return c27M{"k": n}
	case 6:
		return c27W{time.Unix(int64(n), 0)}
	}
	return c27F(n)
}

func c27Kind(v any) int {
	switch v.(type) {
	case *c27S:
		return 0
	case c27S:
		return 1
	case c27N:
		return 2
	case c27T:
		return 3
	case c27L:
		return 4
	case c27M:
		return 5
	case c27W:
		return 6
	case c27F:
		return 7
	}
	return -1
}

// c27Impl decides for the operands of some kinds.
type c27Impl struct {
	kinds int  // set of kinds
	side  int  // 0 either operand, 1 left, 2 right, 3 both
	ret   bool // what the truth valued ones answer
	calls *[]string
}

func (i c27Impl) has(v any) bool { k := c27Kind(v); return k >= 0 && i.kinds&(1<<k) != 0 }

func (i c27Impl) ok(a, b any) bool {
	l, r := i.has(a), i.has(b)
	switch i.side {
	case 1:
		return l
	case 2:
		return r
	case 3:
		return l && r
	}
	return l || r
}

func (i c27Impl) note(op string, a, b any) string {
	s := fmt.Sprintf("%s(%s,%s)", op, c27Str(a), c27Str(b))
	*i.calls = append(*i.calls, s)
	return s
}

func c27Str(v any) string {
	if k := c27Kind(v); k >= 0 {
		return c27Kinds[k] + fmt.Sprint(v)
	}
	if v == nil {
		return "NULL"
	}
	// Numbers come in any width.
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Ptr && !r.IsNil() {
		r = r.Elem()
	}
	switch {
	case r.CanInt():
		return fmt.Sprint(r.Int())
	case r.CanUint():
		if r.Uint() > math.MaxInt64 {
			return fmt.Sprint(float64(r.Uint()))
		}
		return fmt.Sprint(r.Uint())
	case r.CanFloat():
		return fmt.Sprint(r.Float())
	}
	return show(v)
}

// One object for each protocol, and one for all of them.
type (
	c27Two struct{ c27Impl } // protocols with two operands
	c27One struct{ c27Impl } // with one
	c27Eq  struct{ c27Impl }
	c27Lt  struct{ c27Impl }
	c27Gt  struct{ c27Impl }
	c27Add struct{ c27Impl }
	c27Sub struct{ c27Impl }
	c27Mul struct{ c27Impl }
	c27Div struct{ c27Impl }
	c27Mem struct{ c27Impl }
	c27Aso struct{ c27Impl }
	c27Rex struct{ c27Impl }
	c27Boo struct{ c27Impl }
	c27Ite struct{ c27Impl }
)

func (i c27Two) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27One) Applicable(a types.Any) bool    { return i.has(a) }
func (i c27Eq) Applicable(a, b types.Any) bool  { return i.ok(a, b) }
func (i c27Lt) Applicable(a, b types.Any) bool  { return i.ok(a, b) }
func (i c27Gt) Applicable(a, b types.Any) bool  { return i.ok(a, b) }
func (i c27Add) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27Sub) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27Mul) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27Div) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27Mem) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27Aso) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27Rex) Applicable(a, b types.Any) bool { return i.ok(a, b) }
func (i c27Boo) Applicable(a types.Any) bool    { return i.has(a) }
func (i c27Ite) Applicable(a types.Any) bool    { return i.has(a) }

func (i c27Eq) Eq(s types.Scope, a, b types.Any) bool          { i.note("eq", a, b); return i.ret }
func (i c27Lt) Lt(s types.Scope, a, b types.Any) bool          { i.note("lt", a, b); return i.ret }
func (i c27Gt) Gt(s types.Scope, a, b types.Any) bool          { i.note("gt", a, b); return i.ret }
func (i c27Add) Add(s types.Scope, a, b types.Any) types.Any   { return i.note("add", a, b) }
func (i c27Sub) Sub(s types.Scope, a, b types.Any) types.Any   { return i.note("sub", a, b) }
func (i c27Mul) Mul(s types.Scope, a, b types.Any) types.Any   { return i.note("mul", a, b) }
func (i c27Div) Div(s types.Scope, a, b types.Any) types.Any   { return i.note("div", a, b) }
func (i c27Mem) Membership(s types.Scope, a, b types.Any) bool { i.note("in", a, b); return i.ret }
func (i c27Rex) Match(s types.Scope, a, b types.Any) bool      { i.note("match", a, b); return i.ret }
func (i c27Boo) Bool(ctx context.Context, s types.Scope, a types.Any) bool {
	i.note("bool", a, nil)
	return i.ret
}
func (i c27Aso) Associative(s types.Scope, a, b types.Any) (types.Any, bool) {
	return i.note("get", a, b), i.ret
}
func (i c27Aso) GetMembers(s types.Scope, a types.Any) []string {
	return []string{i.note("members", a, "")}
}
func (i c27Ite) Iterate(ctx context.Context, s types.Scope, a types.Any) <-chan types.Row {
	out := make(chan types.Row, 1)
	out <- D("it", i.note("iterate", a, nil))
	close(out)
	return out
}

func (i c27Two) Eq(s types.Scope, a, b types.Any) bool         { return c27Eq(i).Eq(s, a, b) }
func (i c27Two) Lt(s types.Scope, a, b types.Any) bool         { return c27Lt(i).Lt(s, a, b) }
func (i c27Two) Gt(s types.Scope, a, b types.Any) bool         { return c27Gt(i).Gt(s, a, b) }
func (i c27Two) Add(s types.Scope, a, b types.Any) types.Any   { return c27Add(i).Add(s, a, b) }
func (i c27Two) Sub(s types.Scope, a, b types.Any) types.Any   { return c27Sub(i).Sub(s, a, b) }
func (i c27Two) Mul(s types.Scope, a, b types.Any) types.Any   { return c27Mul(i).Mul(s, a, b) }
func (i c27Two) Div(s types.Scope, a, b types.Any) types.Any   { return c27Div(i).Div(s, a, b) }
func (i c27Two) Membership(s types.Scope, a, b types.Any) bool { return c27Mem(i).Membership(s, a, b) }
func (i c27Two) Match(s types.Scope, a, b types.Any) bool      { return c27Rex(i).Match(s, a, b) }
func (i c27Two) Associative(s types.Scope, a, b types.Any) (types.Any, bool) {
	return c27Aso(i).Associative(s, a, b)
}
func (i c27Two) GetMembers(s types.Scope, a types.Any) []string { return c27Aso(i).GetMembers(s, a) }
func (i c27One) Bool(ctx context.Context, s types.Scope, a types.Any) bool {
	return c27Boo(i).Bool(ctx, s, a)
}
func (i c27One) Iterate(ctx context.Context, s types.Scope, a types.Any) <-chan types.Row {
	return c27Ite(i).Iterate(ctx, s, a)
}

var c27Protos = []string{"eq", "lt", "gt", "add", "sub", "mul", "div", "in", "match", "get", "bool", "iterate"}

func c27New(proto int, i c27Impl) any {
	switch proto {
	case 0:
		return c27Eq{i}
	case 1:
		return c27Lt{i}
	case 2:
		return c27Gt{i}
	case 3:
		return c27Add{i}
	case 4:
		return c27Sub{i}
	case 5:
		return c27Mul{i}
	case 6:
		return c27Div{i}
	case 7:
		return c27Mem{i}
	case 8:
		return c27Rex{i}
	case 9:
		return c27Aso{i}
	case 10:
		return c27Boo{i}
	}
	return c27Ite{i}
}

// The operations: those of the protocols, in their order, and "members".
const c27Members = 12

func c27Op(s types.Scope, op int, a, b any) string {
	switch op {
	case 0:
		return show(s.Eq(a, b))
	case 1:
		return show(s.Lt(a, b))
	case 2:
		return show(s.Gt(a, b))
	case 3:
		return show(s.Add(a, b))
	case 4:
		return show(s.Sub(a, b))
	case 5:
		return show(s.Mul(a, b))
	case 6:
		return show(s.Div(a, b))
	case 7:
		return show(s.Membership(a, b))
	case 8:
		return show(s.Match(a, b))
	case 9:
		v, p := s.Associative(a, b)
		return fmt.Sprintf("%s %v", show(v), p)
	case 10:
		return show(s.Bool(a))
	case 11:
		var rows []types.Row
		for r := range s.Iterate(bg, a) {
			rows = append(rows, r)
		}
		return c27ShowRows(rows)
	}
	return fmt.Sprint(s.GetMembers(a))
}

// c27Want is what the implementation answers.
func c27Want(op int, i c27Impl, a, b any) string {
	var calls []string
	i.calls = &calls
	switch op {
	case 0, 1, 2, 7, 8, 10:
		return show(i.ret)
	case 3, 4, 5, 6:
		return show(i.note(c27Protos[op], a, b))
	case 9:
		return fmt.Sprintf("%s %v", show(i.note("get", a, b)), i.ret)
	case 11:
		return c27ShowRows([]types.Row{D("it", i.note("iterate", a, nil))})
	}
	return fmt.Sprint([]string{i.note("members", a, "")})
}

func c27ShowRows(rows []types.Row) string {
	var sb strings.Builder
	for _, r := range rows {
		sb.WriteString(show(r))
	}
	return sb.String()
}

func c27Proto(op int) int {
	if op == c27Members {
		return 9
	}
	return op
}

// c27Builtin: the NULL rules are not for others to decide, and neither are
// what the query language itself gives a meaning to: members of sources and
// scopes, and the patterns that match everything.
func c27Builtin(op int, a, b any) bool {
	one := op == 10 || op == 11 || op == c27Members
	if types.IsNil(a) || !one && types.IsNil(b) {
		return true
	}
	lazy := func(v any) bool {
		switch v.(type) {
		case types.LazyExpr, types.StoredQuery, types.StoredExpression, types.Scope, types.LazyRow:
			return true
		}
		return false
	}
	if lazy(a) || !one && lazy(b) {
		return true
	}
	if p, ok := a.(string); ok && op == 8 && (p == "" || p == "." || p == ".*") {
		return true
	}
	return false
}

// c27Check applies an operation and compares it with what the
// implementation or, if it is not applicable, an untouched scope says.
func c27Check(t *T, what string, s, plain types.Scope, op int, i c27Impl, registered bool, mk func() (any, any)) {
	a, b := mk()
	if c27Builtin(op, a, b) {
		return
	}
	*i.calls = nil
	got := c27Op(s, op, a, b)
	calls := *i.calls
	var applicable bool
	switch op {
	case 10, 11:
		applicable = i.has(a)
	case c27Members:
		applicable = i.ok(a, "")
	default:
		applicable = i.ok(a, b)
	}
	name := "members"
	if op < 12 {
		name = c27Protos[op]
	}
	if registered && applicable {
		a, b = mk()
		if expect(t, "decides:"+name, fmt.Sprintf("%s: %s(%T %s, %T %s)", what, name, a, c27Str(a), b, c27Str(b)), got, c27Want(op, i, a, b)) && len(calls) != 1 {
			t.Fail("calls:"+name, "%s: %s(%s, %s) calls %q", what, name, c27Str(a), c27Str(b), calls)
		}
		return
	}
	if op == 7 && c27Kind(a) >= 0 {
		// Compared with each element.
		return
	}
	a, b = mk()
	want := c27Op(plain, op, a, b)
	if strings.Contains(want, "0x") {
		return
	}
	expect(t, "others:"+name, fmt.Sprintf("%s: %s(%T %s, %T %s)", what, name, a, c27Str(a), b, c27Str(b)), got, want)
	if registered && len(calls) > 0 && c27Kind(a) < 0 && c27Kind(b) < 0 {
		t.Fail("called:"+name, "%s: %s(%s, %s) calls %q", what, name, c27Str(a), c27Str(b), calls)
	}
}

// c27Pairs: one implementation, all operands.
func c27Pairs(t *T, proto, kind, side int, ret bool) {
	e, plain := newEnv(t), newEnv(t)
	var calls []string
	i := c27Impl{1 << kind, side, ret, &calls}
	e.scope.AddProtocolImpl(c27New(proto, i))
	what := fmt.Sprintf("%s of %s (side %d)", c27Protos[proto], c27Kinds[kind], side)
	ops := []int{proto}
	if proto == 9 {
		ops = append(ops, c27Members)
	}
	n := len(c22Vals())
	for _, op := range ops {
		for k := 0; k < n+len(c27Kinds); k++ {
			other := func() any {
				if k < n {
					return c22Vals()[k].v
				}
				return c27Make(k-n, 3)
			}
			c27Check(t, what, e.scope, plain.scope, op, i, true, func() (any, any) { return c27Make(kind, 2), other() })
			c27Check(t, what, e.scope, plain.scope, op, i, true, func() (any, any) { return other(), c27Make(kind, 2) })
			c27Check(t, what, e.scope, plain.scope, op, i, true, func() (any, any) { return other(), int64(1) })
			c27Check(t, what, e.scope, plain.scope, op, i, true, func() (any, any) { return "a", other() })
		}
	}
	// The other protocols are as they were.
	for op := 0; op <= c27Members; op++ {
		if c27Proto(op) == proto {
			continue
		}
		for k := 0; k < len(c27Kinds); k++ {
			for _, o := range []any{int64(1), "a", []any{int64(1)}, D("a", int64(1)), 2.5} {
				c27Check(t, what, e.scope, plain.scope, op, i, false, func() (any, any) { return c27Make(k, 2), o })
				c27Check(t, what, e.scope, plain.scope, op, i, false, func() (any, any) { return o, c27Make(k, 2) })
			}
			c27Check(t, what, e.scope, plain.scope, op, i, false, func() (any, any) { return c27Make(k, 2), c27Make(kind, 3) })
		}
	}
	settle(t, what)
	t.Sig("%s", what)
}

// c27Subset registers a subset of the protocols for a kind, and the others
// for another kind.
func c27Subset(t *T, mask, kind, other, how int) {
	e, plain := newEnv(t), newEnv(t)
	var calls []string
	i := c27Impl{1 << kind, 0, mask&1 == 0, &calls}
	j := c27Impl{1 << other, 0, true, &calls}
	what := fmt.Sprintf("%b of %s and the rest of %s, way %d", mask, c27Kinds[kind], c27Kinds[other], how)
	var impls []types.Any
	for p := range c27Protos {
		if mask&(1<<p) != 0 {
			impls = append(impls, c27New(p, i))
		} else {
			impls = append(impls, c27New(p, j))
		}
	}
	s := e.scope
	switch how {
	case 0: // all at once
		s.AddProtocolImpl(impls...)
	case 1: // one by one, the last first, into a copy
		s = s.Copy()
		defer s.Close()
		for k := len(impls) - 1; k >= 0; k-- {
			s.AddProtocolImpl(impls[k])
		}
	case 2: // copied in between
		for k, x := range impls {
			s.AddProtocolImpl(x)
			if k%4 == 2 {
				s = s.Copy()
				defer s.Close()
			}
		}
	case 3: // before a new scope is made
		s.AddProtocolImpl(impls...)
		s = s.NewScope()
	case 4: // after the copy that is used was made
		c := s.Copy()
		defer c.Close()
		s.AddProtocolImpl(impls...)
		s = c
	}
	for op := 0; op <= c27Members; op++ {
		reg := mask&(1<<c27Proto(op)) != 0
		x, y := i, j
		for _, pair := range [][2]int{{kind, kind}, {kind, -1}, {-1, kind}, {-1, -1}} {
			c27Check(t, what, s, plain.scope, op, x, reg, c27MkPair(pair))
		}
		for _, pair := range [][2]int{{other, other}, {other, -1}, {-1, other}} {
			c27Check(t, what, s, plain.scope, op, y, !reg, c27MkPair(pair))
		}
	}
	t.Sig("%d %d", kind, other)
}

func c27MkPair(p [2]int) func() (any, any) {
	return func() (any, any) {
		var r [2]any
		for k, x := range p {
			r[k] = int64(5 + k)
			if x >= 0 {
				r[k] = c27Make(x, 2+k)
			}
		}
		return r[0], r[1]
	}
}

// c27Order registers implementations in an order.
func c27Order(t *T, perm []int) {
	e, plain := newEnv(t), newEnv(t)
	var calls []string
	var is []c27Impl
	type pk struct{ p, k int }
	all := []pk{{0, 0}, {0, 2}, {0, 4}, {3, 0}, {3, 3}, {10, 4}, {9, 1}}
	for _, x := range all {
		is = append(is, c27Impl{1 << x.k, 3, true, &calls})
	}
	for _, n := range perm {
		e.scope.AddProtocolImpl(c27New(all[n].p, is[n]))
	}
	what := fmt.Sprintf("order %v", perm)
	for n, x := range all {
		reg := false
		for _, m := range perm {
			reg = reg || m == n
		}
		for _, pair := range [][2]int{{x.k, x.k}, {x.k, 6}, {-1, x.k}, {-1, -1}} {
			a, b := c27MkPair(pair)()
			// (Other implementations of the protocol.)
			if c27Kind(a) != c27Kind(b) && x.p != 10 {
				continue
			}
			c27Check(t, what, e.scope, plain.scope, x.p, is[n], reg, c27MkPair(pair))
		}
	}
	t.Sig("%d", len(perm))
}

// c27History: scopes are copied, made anew and get implementations.
type c27Fam struct{ have [3]bool }

func c27History(t *T, s []int) {
	e, plain := newEnv(t), newEnv(t)
	scopes := []types.Scope{e.scope}
	fams := []*c27Fam{{}}
	var calls []string
	protos := []int{0, 3, 10}
	impl := func(p int) c27Impl { return c27Impl{1 << []int{0, 2, 4}[p], 0, true, &calls} }
	what := "scope"
	for _, c := range s {
		// 0..2 register, 3 copy, 4 new; on the first, a middle or the last scope.
		at := []int{0, len(scopes) / 2, len(scopes) - 1}[c/5]
		switch a := c % 5; a {
		case 0, 1, 2:
			if fams[at].have[a] {
				return // registered twice: no new state
			}
			scopes[at].AddProtocolImpl(c27New(protos[a], impl(a)))
			fams[at].have[a] = true
			what += fmt.Sprintf("; %d gets %s", at, c27Protos[protos[a]])
		case 3:
			scopes = append(scopes, scopes[at].Copy())
			fams = append(fams, fams[at])
			what += fmt.Sprintf("; %d copied", at)
		case 4:
			scopes = append(scopes, scopes[at].NewScope())
			f := *fams[at]
			fams = append(fams, &f)
			what += fmt.Sprintf("; new from %d", at)
		}
		if c/5 > 0 && len(scopes) == 1 {
			return
		}
	}
	for n, sc := range scopes {
		for a, p := range protos {
			k := []int{0, 2, 4}[a]
			c27Check(t, fmt.Sprintf("%s: in %d", what, n), sc, plain.scope, p, impl(a), fams[n].have[a], func() (any, any) { return c27Make(k, 2), c27Make(k, 3) })
			c27Check(t, fmt.Sprintf("%s: in %d", what, n), sc, plain.scope, p, impl(a), fams[n].have[a], func() (any, any) { return int64(1), int64(2) })
		}
	}
	t.Sig("%d %d", len(s), len(scopes))
}

// c27Sem is an arithmetic of its own: numbers are equal if they are both
// even or odd, the larger one is less, odd ones are true, ...
type c27Sem struct{}
type c27SemOne struct{}

func c27Num(v any) (int, bool) {
	switch t := v.(type) {
	case *c27S:
		return t.N, true
	case int64:
		return int(t), true
	}
	return 0, false
}

func (c27Sem) nums(a, b any) (x, y int) { x, _ = c27Num(a); y, _ = c27Num(b); return }
func (c27Sem) Applicable(a, b types.Any) bool {
	_, l := a.(*c27S)
	_, r := b.(*c27S)
	_, lok := c27Num(a)
	_, rok := c27Num(b)
	_, str := a.(string)
	_, sb := b.(string)
	_, list := b.([]*int64)
	return (l || r) && (lok && rok || str && r || l && sb || l && list)
}
func (s c27Sem) Eq(sc types.Scope, a, b types.Any) bool {
	if c27Kind(a) < 0 || c27Kind(b) < 0 {
		x, y := s.nums(a, b)
		return x == y
	}
	x, y := s.nums(a, b)
	return (x-y)%2 == 0
}
func (s c27Sem) Lt(sc types.Scope, a, b types.Any) bool { x, y := s.nums(a, b); return x > y }
func (s c27Sem) Gt(sc types.Scope, a, b types.Any) bool { x, y := s.nums(a, b); return x < y }
func (s c27Sem) Add(sc types.Scope, a, b types.Any) types.Any {
	x, y := s.nums(a, b)
	return &c27S{x + y}
}
func (s c27Sem) Sub(sc types.Scope, a, b types.Any) types.Any {
	x, y := s.nums(a, b)
	return &c27S{x - y}
}
func (s c27Sem) Mul(sc types.Scope, a, b types.Any) types.Any {
	x, y := s.nums(a, b)
	return &c27S{x * y}
}
func (s c27Sem) Div(sc types.Scope, a, b types.Any) types.Any {
	x, y := s.nums(a, b)
	return &c27S{x / y}
}
func (s c27Sem) Membership(sc types.Scope, a, b types.Any) bool {
	x, y := s.nums(a, b)
	return x != 0 && y%x == 0
}
func (s c27Sem) Match(sc types.Scope, a, b types.Any) bool {
	x, _ := c27Num(b)
	return strings.Contains(a.(string), fmt.Sprint(x))
}
func (s c27Sem) Associative(sc types.Scope, a, b types.Any) (types.Any, bool) {
	v := a.(*c27S)
	switch b {
	case "m":
		return v.N * 10, true
	case "n":
		return v.N, true
	case "self":
		return v, true
	}
	if n, ok := b.(int64); ok {
		return v.N + int(n), true
	}
	return nil, false
}
func (s c27Sem) GetMembers(sc types.Scope, a types.Any) []string { return []string{"m", "n"} }
func (c27SemOne) Applicable(a types.Any) bool                    { _, ok := a.(*c27S); return ok }
func (c27SemOne) Bool(ctx context.Context, s types.Scope, a types.Any) bool {
	return a.(*c27S).N%2 == 1
}
func (c27SemOne) Iterate(ctx context.Context, s types.Scope, a types.Any) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for i := 0; i < 2; i++ {
			select {
			case <-ctx.Done():
				return
			case out <- D("k", int64(a.(*c27S).N+i)):
			}
		}
	}()
	return out
}

// The single protocols of it.
type (
	c27SEq interface {
		Applicable(a, b types.Any) bool
		Eq(sc types.Scope, a, b types.Any) bool
	}
	c27SLt interface {
		Applicable(a, b types.Any) bool
		Lt(sc types.Scope, a, b types.Any) bool
	}
	c27SGt interface {
		Applicable(a, b types.Any) bool
		Gt(sc types.Scope, a, b types.Any) bool
	}
	c27SAdd interface {
		Applicable(a, b types.Any) bool
		Add(sc types.Scope, a, b types.Any) types.Any
	}
	c27SSub interface {
		Applicable(a, b types.Any) bool
		Sub(sc types.Scope, a, b types.Any) types.Any
	}
	c27SMul interface {
		Applicable(a, b types.Any) bool
		Mul(sc types.Scope, a, b types.Any) types.Any
	}
	c27SDiv interface {
		Applicable(a, b types.Any) bool
		Div(sc types.Scope, a, b types.Any) types.Any
	}
	c27SMem interface {
		Applicable(a, b types.Any) bool
		Membership(sc types.Scope, a, b types.Any) bool
	}
	c27SRex interface {
		Applicable(a, b types.Any) bool
		Match(sc types.Scope, a, b types.Any) bool
	}
	c27SAso interface {
		Applicable(a, b types.Any) bool
		Associative(sc types.Scope, a, b types.Any) (types.Any, bool)
		GetMembers(sc types.Scope, a types.Any) []string
	}
	c27SBoo interface {
		Applicable(a types.Any) bool
		Bool(ctx context.Context, s types.Scope, a types.Any) bool
	}
	c27SIte interface {
		Applicable(a types.Any) bool
		Iterate(ctx context.Context, s types.Scope, a types.Any) <-chan types.Row
	}
)

func c27Singles() []types.Any {
	return []types.Any{struct{ c27SEq }{c27Sem{}}, struct{ c27SLt }{c27Sem{}}, struct{ c27SGt }{c27Sem{}}, struct{ c27SAdd }{c27Sem{}}, struct{ c27SSub }{c27Sem{}}, struct{ c27SMul }{c27Sem{}}, struct{ c27SDiv }{c27Sem{}}, struct{ c27SMem }{c27Sem{}},
		struct{ c27SRex }{c27Sem{}}, struct{ c27SAso }{c27Sem{}}, struct{ c27SBoo }{c27SemOne{}}, struct{ c27SIte }{c27SemOne{}}}
}

// c27Exprs: expressions over v1, v2, v3 and l = [v3, v1, v2].
var c27Exprs = [][2]string{
	{"v1 = v3", "true"}, {"v1 != v3", "false"}, {"v1 = v2", "false"}, {"v1 = 1", "true"}, {"1 = v1", "true"}, {"v2 = 1", "false"}, {"1 != v2", "true"}, {"v1 < v2", "false"}, {"v2 < v1", "true"}, {"v1 <= v3", "true"}, {"v1 <= v2", "false"}, {"v1 > v2", "true"}, {"v3 > v2", "false"}, {"v1 >= v3", "true"}, {"v3 >= v2", "false"},
	{"5 < v2", "true"}, {"1 < v2", "false"}, {"v2 < 1", "true"}, {"5 > v2", "false"}, {"1 > v2", "true"}, {"v2 > 5", "true"}, {"v3 >= 3", "true"}, {"3 <= v3", "true"},
	{"(v1 + v2).n", "3"}, {"(v1 + 1).n", "2"}, {"(1 + v1).n", "2"}, {"(v1 + v2 + v3).n", "6"}, {"(v3 - v1).n", "2"}, {"(5 - v1).n", "4"}, {"(v3 - 1).n", "2"}, {"(v2 * v3).n", "6"}, {"(2 * v3).n", "6"}, {"(v3 * 2).n", "6"}, {"(v3 / v1).n", "3"}, {"(6 / v3).n", "2"}, {"(v3 / 3).n", "1"}, {"(v1 + v2 * v3 - 1).n", "6"},
	{"NOT v1", "false"}, {"NOT v2", "true"}, {"if(condition=v1, then=1, else=2)", "1"}, {"if(condition=v2, then=1, else=2)", "2"}, {"if(condition=v1 AND v3, then=1, else=2)", "1"}, {"if(condition=v1 AND v2, then=1, else=2)", "2"}, {"if(condition=v2 OR v1, then=1, else=2)", "1"}, {"if(condition=v2 || 0, then=1, else=2)", "2"}, {"if(condition=v1 && 1, then=1, else=2)", "1"},
	{"2 IN v2", "true"}, {"3 IN v2", "false"}, {"v1 IN (v3, v2)", "true"}, {"v1 IN (v2, 2)", "false"}, {"1 IN (v2, v1)", "true"}, {"v1 IN l", "true"}, {"4 IN l", "false"},
	{"v1 =~ 'x1x'", "true"}, {"v2 =~ 'x1x'", "false"}, {"(v2, v1) =~ 'a1'", "true"}, {"(v2, 1) =~ 'a3'", "false"}, {"v2 =~ '.'", "true"},
	{"v1.m", "10"}, {"v1.n", "1"}, {"v1.self.m", "10"}, {"v1.self.self.n", "1"}, {"v1[5]", "6"}, {"get(item=v1, member='self.m')", "10"}, {"v1.nosuch", "NULL"}, {"l.m", "[30,10,20]"}, {"l[1].m", "10"}, {"dict(a=v1).a.m", "10"}, {"dict(a=dict(b=v1)).a.b.self.n", "1"}, {"(v1, v2).n", "[1,2]"},
	{"dict(a=v1) = dict(a=v3)", "true"}, {"dict(a=v1) = dict(a=v2)", "false"}, {"(v1, 2) = (v3, v2)", "true"}, {"(v1, v2) = (v3, v3)", "false"}, {"dict(a=(v1, v2)) = dict(a=(v3, 2))", "true"}, {"dict(a=v1) IN (1, dict(a=v3))", "true"},
	{"len(list=l)", "3"}, {"(l + v1)[3].n", "1"}, {"(l + l)[5].n", "2"},
	// Nothing new for other types.
	{"1 = 1", "true"}, {"1 < 2", "true"}, {"2 > 1", "true"}, {"1 + 2", "3"}, {"3 - 1", "2"}, {"2 * 3", "6"}, {"NOT 2", "false"}, {"2 IN (1, 2)", "true"}, {"'a1' =~ '1'", "true"}, {"dict(m=1).m", "1"}, {"(1, 2)[1]", "2"}, {"'a' + 'b'", `"ab"`}, {"dict(a=1) = dict(a=3)", "false"},
}

var c27Rows = [][2]string{
	{"SELECT * FROM foreach(row=v1)", "{k:1}{k:2}"}, {"SELECT * FROM foreach(row=v1, query={ SELECT k + 1 AS j FROM scope() })", "{j:2}{j:3}"}, {"SELECT * FROM l", "{m:30,n:3}{m:10,n:1}{m:20,n:2}"}, {"SELECT m FROM l WHERE n > 1", "{m:30}{m:20}"}, {"SELECT n FROM l ORDER BY n", "{n:1}{n:2}{n:3}"}, {"SELECT *, n + 1 AS o FROM l WHERE m = 10", "{m:10,n:1,o:2}"},
	{"SELECT v AS v, v.n AS n FROM src() ORDER BY v", "n 3 2 1"}, {"SELECT v AS v, v.n AS n FROM src() ORDER BY v DESC", "n 1 2 3"}, {"SELECT v.n AS n FROM src() WHERE v", "{n:3}{n:1}"}, {"SELECT v.n AS n FROM src() WHERE NOT v", "{n:2}"}, {"SELECT v.n AS n FROM src() WHERE v = v1", "{n:3}{n:1}"}, {"SELECT v.n AS n FROM src() WHERE v IN (v2, )", "{n:2}"},
	{"SELECT min(item=v).n AS a, max(item=v).n AS b FROM src() GROUP BY 1", "{a:3,b:1}"}, {"SELECT * FROM if(condition=v1, then={ SELECT 1 AS a FROM scope() }, else={ SELECT 2 AS a FROM scope() })", "{a:1}"}, {"SELECT * FROM if(condition=v2, then={ SELECT 1 AS a FROM scope() }, else={ SELECT 2 AS a FROM scope() })", "{a:2}"},
	{"SELECT a.k AS k FROM flatten(query={ SELECT v1 AS a FROM scope() })", "{k:1}{k:2}"}, {"LET x = v1 SELECT x.m AS m, x = v3 AS e, (x + x).n AS s FROM scope()", "{m:10,e:true,s:2}"}, {"LET f(x, y) = x < y SELECT f(x=v2, y=v1) AS a, f(x=v1, y=v2) AS b FROM scope()", "{a:true,b:false}"}, {"LET q(x) = SELECT x.m AS m FROM scope() SELECT * FROM q(x=v1)", "{m:10}"}, {"LET t <= SELECT v FROM src() SELECT v.m AS m FROM t WHERE v = v1", "{m:30}{m:10}"},
	{"LET x <= v1 SELECT x.m AS m, x = v3 AS e FROM scope()", "{m:10,e:true}"}, {"SELECT { SELECT v.m AS m FROM src() WHERE v = v2 } AS a FROM scope()", "{a:20}"}, {"SELECT i.m AS m FROM foreach(row=l, query={ SELECT _value AS i FROM scope() })", "{m:30}{m:10}{m:20}"}, {"SELECT m FROM foreach(row={ SELECT v FROM src() }, column='v')", "{m:30}{m:10}{m:20}"}, {"SELECT * FROM foreach(row={ SELECT v FROM src() }, query={ SELECT v.m AS m FROM scope() WHERE v })", "{m:30}{m:10}"}, {"SELECT * FROM foreach(row={ SELECT v FROM src() }, workers=2, query={ SELECT v.m AS m FROM scope() WHERE v }) ORDER BY m", "{m:10}{m:30}"},
	{"SELECT * FROM chain(a={ SELECT v.n AS n FROM src() WHERE v }, b={ SELECT n FROM l LIMIT 1 })", "{n:3}{n:1}{n:3}"},
}

// c27Env registers the arithmetic in a way.
func c27Env(t *T, how int) *Env {
	e := newEnv(t)
	l := []any{}
	for _, n := range []int{3, 1, 2} {
		l = append(l, &c27S{n})
	}
	e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "src", Function: listRows(func() []types.Row {
		var rows []types.Row
		for _, n := range []int{3, 1, 2} {
			rows = append(rows, D("v", &c27S{n}))
		}
		return rows
	})})
	single := c27Singles()
	reg := func(s types.Scope) {
		switch how % 4 {
		case 0:
			s.AddProtocolImpl(single...)
		case 1:
			for i := len(single) - 1; i >= 0; i-- {
				s.AddProtocolImpl(single[i])
			}
		case 2:
			for i := range single {
				s.AddProtocolImpl(single[(i+5)%len(single)])
			}
			// Others too.
			var calls []string
			for p := range c27Protos {
				s.AddProtocolImpl(c27New(p, c27Impl{255 &^ 1, 0, true, &calls}))
			}
		case 3:
			s.AddProtocolImpl(c27Sem{}, c27SemOne{})
		}
	}
	switch how / 4 {
	case 0:
		reg(e.scope)
	case 1:
		c := e.scope.Copy()
		reg(e.scope)
		e.scope = c
	case 2:
		e.scope = e.scope.Copy()
		reg(e.scope)
	case 3:
		reg(e.scope)
		e.scope = e.scope.Copy().Copy()
	}
	return e.set("v1", &c27S{1}).set("v2", &c27S{2}).set("v3", &c27S{3}).set("l", l)
}

func c27Row(t *T, text, want string, how int) {
	e := c27Env(t, how)
	var rows []*ordereddict.Dict
	for _, s := range mustParse(t, text) {
		rows = collect(bg, e.scope, s)
	}
	what := fmt.Sprintf("%s (way %d)", text, how)
	settle(t, what)
	got := ""
	if strings.HasPrefix(want, "n ") {
		got = "n"
		for _, r := range rows {
			v, _ := r.Get("n")
			got += " " + show(v)
		}
	} else {
		for _, r := range rows {
			got += show(r)
		}
	}
	expect(t, "statement", what, got, want)
	if l := e.errorLogs(); len(l) > 0 {
		t.Fail("log", "%s logs %q", what, l)
	}
	t.Sig("%s", got)
}

func c27Expr(t *T, x, want string, how int) {
	c27Row(t, "SELECT "+x+" AS r FROM scope()", "{r:"+want+"}", how)
	if how < 4 {
		c27Row(t, "LET f(x) = "+x+" SELECT f(x=1) AS r FROM scope()", "{r:"+want+"}", how)
	}
}

// c27Pool: statements about other types do not notice.
func c27Pool(t *T, tier Tier, text string) {
	if _, err := vfilter.MultiParse(text); err != nil {
		t.Sig("invalid")
		return
	}
	if tier == Quick && c26Hash(text)%3 != 0 {
		t.Sig("thorough")
		return
	}
	base := c26Run(t, poolEnv, text, 0)
	var calls []string
	got := c26Run(t, func(t *T) *Env {
		e := poolEnv(t)
		for p := range c27Protos {
			e.scope.AddProtocolImpl(c27New(p, c27Impl{255, 0, true, &calls}))
		}
		return e
	}, text, 0)
	expect(t, "pool", text, got.rows, base.rows)
	expect(t, "pool", text, got.trace, base.trace)
	expect(t, "pool", text, fmt.Sprintf("%q", got.logs), fmt.Sprintf("%q", base.logs))
	if len(calls) > 0 {
		t.Fail("pool:called", "%s calls %q", text, calls)
	}
	t.Sig("%s", trunc(base.rows, 40))
}

func init() {
	register(&Prop{
		ID:    "C27",
		Level: "model_checking",
		Rule:  "operations whose operands an implementation declares itself applicable to are its decision, in every scope of the family, whatever the order and time of registration; all other operations give what they give without",
		Suites: []Suite{
			{
				Name:  "pairs",
				Bound: "12 protocols x 8 kinds of types (pointers, structs, named numbers, strings, lists, maps, embedded times) x 4 declarations of applicability x both answers x pairs with 96 other values on each side",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for p := range c27Protos {
						for k := range c27Kinds {
							for side := 0; side < 4; side++ {
								for _, ret := range []bool{true, false} {
									if !y(Case{fmt.Sprintf("%s of %s side %d %v", c27Protos[p], c27Kinds[k], side, ret), func(t *T) { c27Pairs(t, p, k, side, ret) }}) {
										return
									}
								}
							}
						}
					}
				}),
			},
			{
				Name:  "subsets",
				Bound: "every subset of the 12 protocols for one type and the rest for another, 5 orders and times of registration relative to copies (quick: one in turn), pairs of types",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for mask := 0; mask < 1<<12; mask += 8 {
						if !y(Case{fmt.Sprintf("%b", mask>>3), func(t *T) {
							for m := mask; m < mask+8; m++ {
								for how := 0; how < 5; how++ {
									if tier == Thorough || (m+how)%5 == 0 {
										a := (m >> 2) % 8
										c27Subset(t, m, a, (a+1+how)%8, how)
									}
								}
							}
						}}) {
							return
						}
					}
				}),
			},
			{
				Name:  "orders",
				Bound: "all orders of all subsets of 7 implementations of 4 protocols",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					var all [][]int
					var rec func(p []int)
					rec = func(p []int) {
						all = append(all, append([]int{}, p...))
					next:
						for i := 0; i < 7; i++ {
							for _, x := range p {
								if x == i {
									continue next
								}
							}
							rec(append(p, i))
						}
					}
					rec(nil)
					batches(64, func(y func([]int) bool) bool {
						for _, p := range all {
							if !y(p) {
								return false
							}
						}
						return true
					}, func(b [][]int) bool {
						return y(Case{fmt.Sprint(b[0]), func(t *T) {
							for _, p := range b {
								c27Order(t, p)
							}
						}})
					})
				}),
			},
			{
				Name:  "histories",
				Bound: "all sequences of up to 4 (thorough 5) registrations, copies and new scopes, on the first, a middle and the last scope: every scope afterwards",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 4
					if tier == Thorough {
						max = 5
					}
					batches(256, func(y func([]int) bool) bool {
						return seqs(15, 1, max, func(s []int) bool { return y(append([]int{}, s...)) })
					}, func(b [][]int) bool {
						return y(Case{fmt.Sprint(b[0]), func(t *T) {
							for _, s := range b {
								c27History(t, s)
							}
						}})
					})
				}),
			},
			{
				Name: "statements", Policies: 2,
				Bound: "114 expressions and 28 queries over an arithmetic of its own: every operator, clause, builtin and container that applies a protocol x 16 ways of registration",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for how := 0; how < 16; how++ {
						for _, x := range c27Exprs {
							if !y(Case{fmt.Sprintf("%s way %d", x[0], how), func(t *T) { c27Expr(t, x[0], x[1], how) }}) {
								return
							}
						}
						for _, x := range c27Rows {
							if !y(Case{fmt.Sprintf("%s way %d", x[0], how), func(t *T) { c27Row(t, x[0], x[1], how) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "pool",
				Bound: "every third (thorough: every) statement of the pool with all protocols registered for other types",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(tier, poolStmts, y, func(t *T, text string) { c27Pool(t, tier, text) })
				}),
			},
		},
	})
}
