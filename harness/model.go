package main

import (
	"sort"
	"strings"
)

// The reference model of the query language used as oracle: a small
// independent evaluator over dictionaries. Values are int64, float64, string,
// bool, nil (NULL), []any and *md.

type md struct {
	keys []string
	m    map[string]any
}

func newMd(kv ...any) *md {
	d := &md{m: map[string]any{}}
	for i := 0; i+1 < len(kv); i += 2 {
		d.set(kv[i].(string), kv[i+1])
	}
	return d
}

// set appends the key or moves it to the end.
func (d *md) set(k string, v any) {
	if _, ok := d.m[k]; ok {
		for i, x := range d.keys {
			if x == k {
				d.keys = append(d.keys[:i:i], d.keys[i+1:]...)
				break
			}
		}
	}
	d.keys = append(d.keys, k)
	d.m[k] = v
}

func (d *md) has(k string) bool { _, ok := d.m[k]; return ok }

func mshow(v any) string {
	switch t := v.(type) {
	case nil:
		return "NULL"
	case *md:
		var p []string
		for _, k := range t.keys {
			p = append(p, k+":"+mshow(t.m[k]))
		}
		return "{" + strings.Join(p, ",") + "}"
	case []any:
		var p []string
		for _, x := range t {
			p = append(p, mshow(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	return show(v)
}

func mshowRows(rows []*md) string {
	var p []string
	for _, r := range rows {
		p = append(p, mshow(r))
	}
	return strings.Join(p, ";")
}

// menv is a chain of bindings, innermost last: *md, or columns that are
// evaluated when they are needed.
type menv struct {
	frames []any
	trace  *[]string
	agg    map[int]any
	depth  int
}

// mforced is a value that is evaluated where its name is used.
type mforced interface{ force(e *menv) any }

func newMenv(d *md) *menv {
	return &menv{frames: []any{d}, trace: new([]string)}
}

func (e *menv) with(d any) *menv {
	n := *e
	n.frames = append(e.frames[:len(e.frames):len(e.frames)], d)
	return &n
}

// find returns what the name is bound to.
func (e *menv) find(n string) any {
	v, _ := e.bound(n)
	return v
}

func (e *menv) bound(n string) (any, bool) {
	for i := len(e.frames) - 1; i >= 0; i-- {
		switch t := e.frames[i].(type) {
		case *md:
			if v, ok := t.m[n]; ok {
				return v, true
			}
		case map[string]func() any:
			if f, ok := t[n]; ok {
				return f(), true
			}
		}
	}
	return nil, false
}

func (e *menv) lookup(n string) any {
	v := e.find(n)
	if f, ok := v.(mforced); ok {
		return f.force(e)
	}
	return v
}

// X is an expression: its text and its meaning.
type X struct {
	s string
	f func(e *menv) any
}

func xName(n string) X { return X{n, func(e *menv) any { return e.lookup(n) }} }
func xLit(s string, v any) X {
	return X{s, func(e *menv) any { return v }}
}

func isNum(v any) (float64, bool, bool) {
	switch t := v.(type) {
	case int64:
		return float64(t), true, true
	case float64:
		return t, false, true
	}
	return 0, false, false
}

func mBool(v any) bool {
	switch t := v.(type) {
	case bool:
		return t
	case int64:
		return t > 0
	case float64:
		return t > 0
	case string:
		return t != ""
	case []any:
		return len(t) > 0
	case *md:
		return len(t.keys) > 0
	}
	return false
}

func mEq(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, xi, ok := isNum(a); ok {
		if y, yi, ok := isNum(b); ok {
			if xi && yi {
				return a.(int64) == b.(int64)
			}
			return x == y
		}
		return false
	}
	switch t := a.(type) {
	case string:
		u, ok := b.(string)
		return ok && t == u
	case bool:
		u, ok := b.(bool)
		return ok && t == u
	case []any:
		u, ok := b.([]any)
		if !ok || len(u) != len(t) {
			return false
		}
		for i := range t {
			if !mEq(t[i], u[i]) {
				return false
			}
		}
		return true
	case *md:
		u, ok := b.(*md)
		if !ok || len(u.keys) != len(t.keys) {
			return false
		}
		for _, k := range t.keys {
			if !u.has(k) || !mEq(t.m[k], u.m[k]) {
				return false
			}
		}
		return true
	}
	return false
}

func mLt(a, b any) bool {
	if x, xi, ok := isNum(a); ok {
		if y, yi, ok := isNum(b); ok {
			if xi && yi {
				return a.(int64) < b.(int64)
			}
			return x < y
		}
		return false
	}
	if t, ok := a.(string); ok {
		u, ok := b.(string)
		return ok && t < u
	}
	return false
}

func mAdd(a, b any) any {
	if l, ok := a.([]any); ok && b == nil {
		return append(append([]any{}, l...), nil)
	}
	if a == nil || b == nil {
		return nil
	}
	if x, xi, ok := isNum(a); ok {
		if y, yi, ok := isNum(b); ok {
			if xi && yi {
				return a.(int64) + b.(int64)
			}
			return x + y
		}
	}
	if t, ok := a.(string); ok {
		if u, ok := b.(string); ok {
			return t + u
		}
	}
	la, aok := a.([]any)
	lb, bok := b.([]any)
	if aok || bok {
		if !aok {
			la = []any{a}
		}
		if !bok {
			lb = []any{b}
		}
		return append(append([]any{}, la...), lb...)
	}
	return nil
}

func mArith(op string, a, b any) any {
	if op == "+" {
		return mAdd(a, b)
	}
	x, xi, ok := isNum(a)
	if !ok {
		return nil
	}
	y, yi, ok := isNum(b)
	if !ok {
		return nil
	}
	both := xi && yi
	switch op {
	case "-":
		if both {
			return a.(int64) - b.(int64)
		}
		return x - y
	case "*":
		if both {
			return a.(int64) * b.(int64)
		}
		return x * y
	case "/":
		if y == 0 {
			return nil
		}
		return x / y
	}
	return nil
}

func xOp(op string, a, b X) X {
	return X{a.s + " " + op + " " + b.s, func(e *menv) any {
		switch op {
		case "AND":
			if !mBool(a.f(e)) {
				return false
			}
			return mBool(b.f(e))
		case "OR":
			x := a.f(e)
			if mBool(x) {
				return x
			}
			y := b.f(e)
			if mBool(y) {
				return true
			}
			return y
		}
		x, y := a.f(e), b.f(e)
		switch op {
		case "=":
			return mEq(x, y)
		case "!=":
			return !mEq(x, y)
		case "<":
			return mLt(x, y)
		case ">":
			return mLt(y, x)
		case "<=":
			return mLt(x, y) || mEq(x, y)
		case ">=":
			return mLt(y, x) || mEq(x, y)
		case "IN":
			if l, ok := y.([]any); ok {
				for _, i := range l {
					if mEq(x, i) {
						return true
					}
				}
				return false
			}
			if t, ok := y.(string); ok {
				u, ok := x.(string)
				return ok && strings.Contains(t, u)
			}
			return false
		}
		return mArith(op, x, y)
	}}
}

func xPar(a X) X { return X{"(" + a.s + ")", a.f} }
func xNot(a X) X {
	return X{"NOT " + a.s, func(e *menv) any { return !mBool(a.f(e)) }}
}

func xNeg(name string) X {
	return X{"-" + name, func(e *menv) any {
		switch t := e.lookup(name).(type) {
		case int64:
			return -t
		case float64:
			return -t
		case bool:
			return !t
		}
		return nil
	}}
}

func xList(xs ...X) X {
	var p []string
	for _, x := range xs {
		p = append(p, x.s)
	}
	return X{"(" + strings.Join(p, ", ") + ")", func(e *menv) any {
		var r []any
		for _, x := range xs {
			r = append(r, x.f(e))
		}
		return r
	}}
}

// fx(v=X, n='name') notes that it is evaluated.
func xFx(a X, n string) X {
	return X{"fx(v=" + a.s + ", n='" + n + "')", func(e *menv) any {
		v := a.f(e)
		if e.trace != nil {
			*e.trace = append(*e.trace, n+"("+mshow(v)+")")
		}
		return v
	}}
}

func xIf(c, a, b X) X {
	return X{"if(condition=" + c.s + ", then=" + a.s + ", else=" + b.s + ")", func(e *menv) any {
		if mBool(c.f(e)) {
			return a.f(e)
		}
		return b.f(e)
	}}
}

func xDict(k string, a X) X {
	return X{"dict(" + k + "=" + a.s + ")", func(e *menv) any {
		return newMd(k, a.f(e))
	}}
}

func xMember(a X, k string) X {
	return X{a.s + "." + k, func(e *menv) any {
		if d, ok := a.f(e).(*md); ok {
			return d.m[k]
		}
		return nil
	}}
}

// Col is a column of a SELECT; star if x.f is nil.
type Col struct {
	x  X
	as string
}

func (c Col) star() bool { return c.x.f == nil }

func (c Col) text() string {
	if c.star() {
		return "*"
	}
	if c.as != "" {
		return c.x.s + " AS " + c.as
	}
	return c.x.s
}

func (c Col) name() string {
	if c.as != "" && c.as[0] == 0x60 {
		return c.as[1 : len(c.as)-1]
	}
	if c.as != "" {
		return c.as
	}
	return c.x.s
}

// Q is a SELECT over a table.
type Q struct {
	cols    []Col
	where   *X
	group   []X
	order   string
	desc    bool
	limit   int // -1 none
	from    string
	explain bool
}

func (q *Q) text() string {
	var p []string
	for _, c := range q.cols {
		p = append(p, c.text())
	}
	s := "SELECT " + strings.Join(p, ", ") + " FROM " + q.from
	if q.where != nil {
		s += " WHERE " + q.where.s
	}
	if q.group != nil {
		var g []string
		for _, x := range q.group {
			g = append(g, x.s)
		}
		s += " GROUP BY " + strings.Join(g, ", ")
	}
	if q.order != "" {
		s += " ORDER BY " + quoteName(q.order)
		if q.desc {
			s += " DESC"
		}
	}
	if q.limit >= 0 {
		s += " LIMIT " + show(q.limit)
	}
	return s
}

// mrow is a source row on which the columns are evaluated on demand.
type mrow struct {
	env   *menv
	names []string
	get   map[string]func() any
}

func (q *Q) bind(e *menv, row *md) *mrow {
	r := &mrow{env: e.with(row), get: map[string]func() any{}}
	memo := map[string]any{}
	done := map[string]bool{}
	for i, c := range q.cols {
		c := c
		if c.star() {
			for _, k := range row.keys {
				k := k
				if i > 0 {
					if _, ok := r.get[k]; ok {
						continue
					}
				}
				r.names = append(r.names, k)
				r.get[k] = func() any { return row.m[k] }
			}
			continue
		}
		n := c.name()
		r.names = append(r.names, n)
		r.get[n] = func() any {
			if !done[n] {
				memo[n] = c.x.f(r.env)
				done[n] = true
			}
			return memo[n]
		}
	}
	return r
}

// filterEnv is what WHERE and GROUP BY see: the row and the aliases.
func (r *mrow) filterEnv() *menv {
	return r.env.with(r.get)
}

func (q *Q) passes(r *mrow) bool {
	return q.where == nil || mBool(q.where.f(r.filterEnv()))
}

func (r *mrow) out() *md {
	out := newMd()
	for _, n := range r.names {
		out.set(n, r.get[n]())
	}
	return out
}

// mKey identifies a grouping value: numbers by value, others by type and value.
func mKey(v any) string {
	switch t := v.(type) {
	case []any:
		var p []string
		for _, x := range t {
			p = append(p, mKey(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case float64:
		if t == float64(int64(t)) {
			return show(int64(t))
		}
	}
	return mshow(v)
}

// mLess orders rows by a column: NULL and missing first.
func mLess(a, b any) bool {
	if a == nil {
		return b != nil
	}
	if b == nil {
		return false
	}
	return mLt(a, b)
}

func (q *Q) eval(e *menv, table []*md) []*md {
	n := *e
	e = &n
	if e.agg == nil {
		e.agg = map[int]any{}
	}
	var res []*md
	if q.group != nil {
		var keys []string
		bins := map[string]*md{}
		aggs := map[string]map[int]any{}
		for _, row := range table {
			r := q.bind(e, row)
			if !q.passes(r) {
				continue
			}
			key := ""
			for _, g := range q.group {
				key += mKey(g.f(r.filterEnv())) + "|"
			}
			if aggs[key] == nil {
				aggs[key] = map[int]any{}
				keys = append(keys, key)
			}
			r.env.agg = aggs[key]
			bins[key] = r.out()
		}
		for _, k := range keys {
			res = append(res, bins[k])
		}
	} else {
		for _, row := range table {
			r := q.bind(e, row)
			if q.passes(r) {
				res = append(res, r.out())
			}
		}
	}
	if q.order != "" {
		sort.SliceStable(res, func(i, j int) bool {
			a, b := res[i].m[q.order], res[j].m[q.order]
			if q.desc {
				return mLess(b, a)
			}
			return mLess(a, b)
		})
	}
	if q.limit >= 0 && len(res) > q.limit {
		res = res[:q.limit]
	}
	return res
}

// Aggregate functions. Each call site has its own accumulator.
func xAgg(site int, fn string, a X) X {
	arg := "item=" + a.s
	switch fn {
	case "count":
		arg = ""
	case "enumerate":
		arg = "items=" + a.s
	}
	return X{fn + "(" + arg + ")", func(e *menv) any {
		old, pres := e.agg[site]
		var v any
		switch fn {
		case "count":
			n, _ := old.(int64)
			v = n + 1
		case "sum":
			x := a.f(e)
			i, ok := x.(int64)
			if !ok {
				return nil
			}
			n, _ := old.(int64)
			v = n + i
		case "min":
			v = a.f(e)
			if pres && old != nil && !mLt(v, old) {
				v = old
			}
		case "max":
			v = a.f(e)
			if pres && old != nil && !mLt(old, v) {
				v = old
			}
		case "enumerate":
			l, _ := old.([]any)
			v = append(append([]any{}, l...), a.f(e))
		}
		e.agg[site] = v
		return v
	}}
}

func mdOf(d *Dict) *md {
	r := newMd()
	for _, i := range d.Items() {
		r.set(i.Key, mval(i.Value))
	}
	return r
}

func mval(v any) any {
	switch t := v.(type) {
	case *Dict:
		return mdOf(t)
	case []any:
		var r []any
		for _, x := range t {
			r = append(r, mval(x))
		}
		return r
	case int:
		return int64(t)
	}
	if s := show(v); s == "NULL" || s == "nil" {
		return nil
	}
	return v
}

func mtable(t []*Dict) []*md {
	var r []*md
	for _, d := range t {
		r = append(r, mdOf(d))
	}
	return r
}

// unquoteCols leaves the model's names of back-quoted aliases without quotes.
func unquoteCols(c []Col) []Col { return c }

func quoteName(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return "`" + s + "`"
		}
	}
	return s
}
