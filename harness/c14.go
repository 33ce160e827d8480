package main

import (
	"errors"
	"fmt"
	"strings"

	vfilter "REPO"
	"REPO/types"
)

// The reference interpreter of LET: names are bound to definitions, which are
// evaluated where they are used (dynamic scope).

type mparam struct {
	name string
	def  *X
}

type mbody struct {
	name string
	x    *X
	q    *Q
	src  msrc
}

// msrc is a source of rows.
type msrc struct {
	s    string
	rows func(e *menv) []*md
}

func (b mbody) text() string {
	if b.x != nil {
		return b.x.s
	}
	return b.q.text()
}

type mdef struct {
	name   string
	params []mparam
	parens bool
	mat    bool
	body   mbody
}

// mqval is a query as a value.
type mqval struct {
	body mbody
	env  *menv
}

// mrows are the rows of a query that was run.
type mrows []*md

var (
	errUnspec = errors.New("not specified")
	errDeep   = errors.New("recursion")
)

func (d *mdef) text() string {
	s := "LET " + d.name
	if d.parens {
		var p []string
		for _, x := range d.params {
			if x.def != nil {
				p = append(p, x.name+"="+x.def.s)
			} else {
				p = append(p, x.name)
			}
		}
		s += "(" + strings.Join(p, ", ") + ")"
	}
	if d.mat {
		s += " <= "
	} else {
		s += " = "
	}
	return s + d.body.text()
}

func (d *mdef) eval(e *menv) any {
	if e.depth > 12 {
		panic(errDeep)
	}
	n := *e
	n.depth++
	if d.body.x != nil {
		return d.body.x.f(&n)
	}
	return &mqval{d.body, &n}
}

func (d *mdef) force(e *menv) any {
	if len(d.params) > 0 {
		panic(errUnspec)
	}
	return d.eval(e)
}

func (d *mdef) call(e *menv, args *md) any {
	vars := newMd()
	for _, k := range args.keys {
		known := false
		for _, p := range d.params {
			known = known || p.name == k
		}
		if !known {
			panic(errUnspec)
		}
		vars.set(k, args.m[k])
	}
	for _, p := range d.params {
		if p.def != nil && !vars.has(p.name) {
			vars.set(p.name, p.def.f(e))
		}
	}
	n := e.with(vars)
	n.agg = map[int]any{}
	v := d.eval(n)
	if q, ok := v.(*mqval); ok && d.body.q != nil {
		return mrows(q.body.run(n))
	}
	return v
}

func (d *mdef) define(e *menv) {
	top := e.frames[0].(*md)
	if !d.mat {
		top.set(d.name, d)
		return
	}
	if len(d.params) > 0 {
		panic(errUnspec)
	}
	v := d.eval(e)
	if q, ok := v.(*mqval); ok {
		v = mrows(q.run(e))
	}
	top.set(d.name, v)
}

func (b mbody) run(e *menv) []*md {
	if e.depth > 12 {
		panic(errDeep)
	}
	n := *e
	n.depth++
	n.agg = nil
	return b.q.eval(&n, b.src.rows(&n))
}

// run evaluates the query where it is used. It must not matter if that is
// where it was named.
func (q *mqval) run(e *menv) []*md {
	rows := q.body.run(e)
	old := *e.trace
	if mshowRows(rows) != mshowRows(q.body.run(q.env)) {
		panic(errUnspec)
	}
	*e.trace = old
	return rows
}

// plain rejects queries where a value is needed.
func plain(v any) any {
	switch t := v.(type) {
	case *mqval, mrows:
		panic(errUnspec)
	case []any:
		for _, x := range t {
			plain(x)
		}
	case *md:
		for _, k := range t.keys {
			plain(t.m[k])
		}
	}
	return v
}

func lName(n string) X { return X{n, func(e *menv) any { return plain(e.lookup(n)) }} }

func lRaw(n string) X { return xName(n) }

type marg struct {
	n string
	x X
}

func lArgs(args []marg) (string, func(e *menv) *md) {
	var p []string
	for _, a := range args {
		p = append(p, a.n+"="+a.x.s)
	}
	return "(" + strings.Join(p, ", ") + ")", func(e *menv) *md {
		d := newMd()
		for _, a := range args {
			d.set(a.n, a.x.f(e))
		}
		return d
	}
}

// lCall is a call of a definition.
func lCall(n string, args ...marg) X {
	s, f := lArgs(args)
	return X{n + s, func(e *menv) any {
		switch t := e.find(n).(type) {
		case *mdef:
			return t.call(e, f(e))
		case nil:
			return nil
		case *mqval, mrows:
			panic(errUnspec)
		default:
			return nil // not a function
		}
	}}
}

func lPlain(x X) X { return X{x.s, func(e *menv) any { return plain(x.f(e)) }} }

// lMember is the column of a query or the member of a value.
func lMember(x X, k string) X {
	return X{x.s + "." + k, func(e *menv) any {
		v := x.f(e)
		switch t := v.(type) {
		case *mqval:
			v = mrows(t.run(e))
		case *md:
			return t.m[k]
		}
		if t, ok := v.(mrows); ok {
			res := []any{}
			for _, r := range t {
				if !r.has(k) {
					panic(errUnspec)
				}
				res = append(res, r.m[k])
			}
			return res
		}
		if _, ok := v.([]any); ok {
			panic(errUnspec)
		}
		return nil
	}}
}

func rowsOf(e *menv, v any) []*md {
	switch t := v.(type) {
	case *mqval:
		return t.run(e)
	case mrows:
		return t
	}
	panic(errUnspec)
}

func lFrom(n string) msrc {
	return msrc{n, func(e *menv) []*md {
		if _, ok := e.bound(n); !ok {
			return nil
		}
		return rowsOf(e, e.lookup(n))
	}}
}

func lFromCall(n string, args ...marg) msrc {
	s, f := lArgs(args)
	return msrc{n + s, func(e *menv) []*md {
		d, ok := e.find(n).(*mdef)
		if !ok {
			return nil
		}
		return rowsOf(e, d.call(e, f(e)))
	}}
}

var lVals = msrc{"vals()", func(e *menv) []*md {
	return []*md{newMd("a", int64(1)), newMd("a", int64(2))}
}}

var lOne = msrc{"one()", func(e *menv) []*md { return []*md{newMd()} }}

func lQuery(src msrc, where *X, limit int, cols ...Col) mbody {
	q := &Q{cols: cols, from: src.s, limit: limit, where: where}
	return mbody{name: q.text(), q: q, src: src}
}

func lExpr(x X) mbody { return mbody{name: x.s, x: &x} }

// c14Exprs are bodies that may use the other name o.
func c14Exprs(o string) []mbody {
	one, two, three := xLit("1", int64(1)), xLit("2", int64(2)), xLit("3", int64(3))
	p, q := lName("p"), lName("q")
	d := X{"dict(p=p, q=q)", func(e *menv) any { return newMd("p", p.f(e), "q", q.f(e)) }}
	var res []mbody
	for _, x := range []X{
		one, lName("a"), lName("v"), p, xOp("+", p, q), lName(o), xOp("+", lName(o), one), lPlain(lCall(o)),
		lPlain(lCall(o, marg{"p", two})), lPlain(lCall(o, marg{"p", lName("a")})), lPlain(lCall(o, marg{"q", p}, marg{"p", three})),
		xFx(p, "t"), xFx(lName(o), "t"), xFx(xLit("7", int64(7)), "t"), d, xIf(p, lName(o), q), xList(p, q), lPlain(lCall(o, marg{"p", lName(o)})),
		xOp("+", lPlain(lCall(o, marg{"p", one})), lPlain(lCall(o, marg{"p", p}))), xOp("+", lName(o), lName(o)), lMember(lName(o), "p"),
		lPlain(lCall("F", marg{"p", p})), lPlain(lCall(o, marg{"p", lPlain(lCall(o, marg{"p", p}))})),
	} {
		res = append(res, lExpr(x))
	}
	return res
}

// c14Queries are query bodies that may use the other name o.
func c14Queries(o string) []mbody {
	one := xLit("1", int64(1))
	p, a := lName("p"), lName("a")
	eq := xOp("=", a, p)
	gt := xOp(">", lName("a"), one)
	res := []mbody{
		lQuery(lVals, nil, -1, Col{a, ""}),
		lQuery(lVals, nil, -1, Col{a, ""}, Col{p, ""}),
		lQuery(lOne, nil, -1, Col{p, ""}, Col{lName("q"), "a"}),
		lQuery(lFrom(o), nil, -1, Col{}),
		lQuery(lFromCall(o, marg{"p", one}), nil, -1, Col{}),
		lQuery(lFromCall(o, marg{"p", p}), nil, -1, Col{xOp("+", a, p), "a"}),
		lQuery(lFromCall(o), nil, 1, Col{a, ""}),
		lQuery(lVals, &eq, -1, Col{}),
		lQuery(lFrom(o), &gt, -1, Col{a, ""}),
		lQuery(lVals, nil, -1, Col{a, ""}, Col{lPlain(lCall(o, marg{"p", a})), "p"}),
		lQuery(lVals, nil, -1, Col{lName(o), "a"}),
		lQuery(lVals, nil, -1, Col{a, ""}, Col{lMember(lCall(o, marg{"p", a}), "a"), "p"}),
		lQuery(lOne, nil, -1, Col{lMember(lRaw(o), "a"), "a"}),
		lQuery(lFrom("p"), nil, -1, Col{}),
	}
	for _, x := range []X{lRaw(o), lCall(o, marg{"p", xLit("5", int64(5))}), p, lMember(lRaw(o), "a"), lMember(lCall(o, marg{"p", one}), "a"), xLit("9", int64(9))} {
		res = append(res, lExpr(x))
	}
	return res
}

type mparams struct {
	p      []mparam
	parens bool
}

func c14Params(all bool) []mparams {
	x := func(x X) *X { return &x }
	one, two := xLit("1", int64(1)), xLit("2", int64(2))
	res := []mparams{
		{},
		{[]mparam{{"p", nil}}, true},
		{[]mparam{{"p", nil}, {"q", x(two)}}, true},
		{[]mparam{{"p", x(one)}}, true},
	}
	if all {
		res = append(res,
			mparams{nil, true},
			mparams{[]mparam{{"q", nil}, {"p", nil}}, true},
			mparams{[]mparam{{"q", x(xFx(lName("p"), "d"))}, {"p", x(xFx(lName("v"), "e"))}}, true},
			mparams{[]mparam{{"a", x(lName("a"))}, {"p", x(xOp("+", lName("a"), one))}}, true},
		)
	}
	return res
}

func c14Uses(x, y string) []mbody {
	one, five, six := xLit("1", int64(1)), xLit("5", int64(5)), xLit("6", int64(6))
	a := lName("a")
	var res []mbody
	for _, u := range []X{
		lName(x), lPlain(lCall(x)), lPlain(lCall(x, marg{"p", five})), lPlain(lCall(x, marg{"p", a})), lPlain(lCall(x, marg{"q", six}, marg{"p", five})),
		lPlain(lCall(x, marg{"p", five}, marg{"q", six})), xOp("+", lPlain(lCall(x, marg{"p", five})), lPlain(lCall(x, marg{"p", six}))),
		lName("p"), lName("q"), lPlain(lCall(x, marg{"p", lName(y)})), lPlain(lCall(x, marg{"p", lPlain(lCall(y, marg{"p", one}))})), xOp("+", lName(x), lName(x)),
		lPlain(lCall("F", marg{"p", lName(x)})), xIf(lName("v"), one, lName(x)),
	} {
		res = append(res, lQuery(lVals, nil, -1, Col{u, "c"}))
	}
	w := xOp("=", lPlain(lCall(x, marg{"p", lName("c")})), one)
	w2 := xOp("=", lName("c"), lPlain(lCall(x, marg{"p", five})))
	res = append(res,
		lQuery(lVals, &w, -1, Col{a, "c"}),
		lQuery(lVals, &w2, -1, Col{lPlain(lCall(x, marg{"p", a})), "c"}),
		lQuery(lVals, nil, -1, Col{lPlain(lCall(x, marg{"p", a})), "c"}, Col{lPlain(lCall(x, marg{"p", a})), "d"}, Col{lName("p"), "e"}),
	)
	return res
}

func c14QueryUses(x, y string) []mbody {
	one, five := xLit("1", int64(1)), xLit("5", int64(5))
	a := lName("a")
	gt := xOp(">", a, one)
	star := Col{}
	res := []mbody{
		lQuery(lFrom(x), nil, -1, star), lQuery(lFromCall(x), nil, -1, star), lQuery(lFromCall(x, marg{"p", five}), nil, -1, star),
		lQuery(lFromCall(x, marg{"q", one}, marg{"p", lName("v")}), nil, -1, star), lQuery(lFrom(x), &gt, -1, star), lQuery(lFromCall(x, marg{"p", one}), &gt, 1, Col{a, ""}, Col{lName("p"), "z"}),
		lQuery(lOne, nil, -1, Col{lMember(lRaw(x), "a"), "c"}), lQuery(lOne, nil, -1, Col{lMember(lCall(x, marg{"p", five}), "a"), "c"}), lQuery(lOne, nil, -1, Col{lMember(lCall(x), "a"), "c"}), lQuery(lVals, nil, -1, Col{lMember(lCall(x, marg{"p", a}), "p"), "c"}),
		lQuery(lFromCall(x, marg{"p", lRaw(y)}), nil, -1, star), lQuery(lOne, nil, -1, Col{lName("p"), "c"}), lQuery(lVals, nil, -1, Col{lName(x), "c"}), lQuery(lVals, nil, -1, Col{lPlain(lCall(x, marg{"p", a})), "c"}),
		lQuery(lFrom(x), nil, -1, Col{lMember(lRaw(y), "a"), "c"}, Col{a, ""}),
	}
	return res
}

// modelled runs f unless the model does not say what it does.
func modelled(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if r == errUnspec || r == errDeep {
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func c14Env(t *T) (*Env, *menv) {
	e := newEnv(t)
	e.set("v", int64(4))
	e.scope.AppendPlugins(
		vfilter.GenericListPlugin{PluginName: "vals", Function: listRows(func() []types.Row {
			return []types.Row{D("a", int64(1)), D("a", int64(2))}
		})},
		vfilter.GenericListPlugin{PluginName: "one", Function: listRows(func() []types.Row {
			return []types.Row{D()}
		})},
	)
	me := newMenv(newMd("v", int64(4)))
	f := &mdef{name: "F", params: []mparam{{"p", nil}}, parens: true, body: lExpr(xList(xName("p"), xLit("0", int64(0))))}
	f.define(me)
	e.query(f.text())
	return e, me
}

// c14Run checks programs that each start with a definition; before and
// after every definition the uses are evaluated.
func c14Run(t *T, prog []*mdef, uses []mbody, effects bool) {
	e, me := c14Env(t)
	text := ""
	compared := 0
	for _, d := range prog {
		text += d.text() + " "
		*me.trace = nil
		if !modelled(func() { d.define(me) }) {
			t.Sig("unspecified")
			return
		}
		e.run(bg, mustParse(t, d.text())...)
		got, want := e.takeTrace(), join(*me.trace)
		if effects && !expect(t, "define-effects", text, got, want) {
			return
		}
		if d != prog[len(prog)-1] && d.name != prog[len(prog)-1].name {
			continue
		}
		for _, u := range uses {
			var rows []*md
			*me.trace = nil
			if !modelled(func() {
				rows = u.run(me)
				for _, r := range rows {
					plain(r)
				}
			}) {
				continue
			}
			compared++
			res := e.run(bg, mustParse(t, u.text())...)
			got, want = e.takeTrace(), join(*me.trace)
			if !expect(t, "value", text+u.text(), showRows(res), mshowRows(rows)) {
				return
			}
			if effects && !expect(t, "effects", text+u.text(), got, want) {
				return
			}
			t.Sig("%s", got)
		}
	}
	t.Sig("%d uses", compared)
	settle(t, "let")
}

// c14Defs enumerates definitions of x that may use o.
func c14Defs(x, o string, bodies func(string) []mbody, all bool) []*mdef {
	var res []*mdef
	for _, b := range bodies(o) {
		for _, p := range c14Params(all) {
			res = append(res, &mdef{x, p.p, p.parens, false, b})
		}
		res = append(res, &mdef{x, nil, false, true, b})
	}
	return res
}

func c14Programs(tier Tier, bodies func(string) []mbody, y func(p []*mdef) bool) bool {
	first, second := c14Defs("Y", "X", bodies, tier == Thorough), c14Defs("X", "Y", bodies, true)
	for _, a := range first {
		for _, b := range second {
			if !y([]*mdef{a, b}) {
				return false
			}
		}
	}
	// Defined after its use is defined.
	for _, a := range first {
		for _, b := range c14Defs("X", "Y", bodies, false) {
			if !y([]*mdef{b, a}) {
				return false
			}
		}
	}
	// Replaced by a definition that may use the one it replaces.
	for _, a := range c14Defs("X", "Y", bodies, false) {
		for _, b := range c14Defs("X", "X", bodies, false) {
			if !y([]*mdef{a, b}) {
				return false
			}
		}
	}
	if tier == Thorough {
		for _, a := range c14Defs("Y", "Z", bodies, false) {
			for _, b := range c14Defs("X", "Y", bodies, false) {
				for i, c := range c14Defs("Z", "X", bodies, false) {
					if i%16 != 3 {
						continue
					}
					if !y([]*mdef{a, c, b}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func c14Cases(tier Tier, bodies func(string) []mbody, uses []mbody, effects bool, y func(Case) bool) {
	n := 0
	batches(8, func(y func([]*mdef) bool) bool { return c14Programs(tier, bodies, y) }, func(b [][]*mdef) bool {
		n++
		name := ""
		for _, d := range b[0] {
			name += d.text() + " "
		}
		return y(Case{fmt.Sprintf("%d: %s ..", n, name), func(t *T) {
			for _, p := range b {
				c14Run(t, p, uses, effects)
			}
		}})
	})
}

// c14Inline replaces an expression by a name for it.
func c14Inline(t *T, tier Tier, x string) {
	stmt := "SELECT " + x + " AS r FROM vals()"
	if _, err := vfilter.MultiParse(stmt); err != nil {
		t.Sig("invalid")
		return
	}
	// Several values are not one expression.
	if _, err := vfilter.MultiParse("LET X = " + x); err != nil {
		t.Sig("columns")
		return
	}
	// Aggregates count calls.
	if strings.Contains(x, "count()") || strings.Contains(x, "sum(") {
		t.Sig("aggregate")
		return
	}
	want := meaning(t, stmt)
	for i, s := range []string{
		"LET X9 = " + x + " SELECT X9 AS r FROM vals()",
		"LET X9() = " + x + " SELECT X9() AS r FROM vals()",
		"LET X9(zz) = " + x + " SELECT X9(zz=1) AS r FROM vals()",
		"LET X9(zz) = zz SELECT X9(zz=" + x + ") AS r FROM vals()",
		"LET X9(zz=" + x + ") = zz SELECT X9() AS r FROM vals()",
		"LET X9 = " + x + " LET Y9 = X9 LET Z9(zz) = Y9 SELECT Z9(zz=4) AS r FROM vals()",
		"LET X9 = SELECT " + x + " AS r FROM vals() SELECT * FROM X9",
		"LET X9(zz) = SELECT " + x + " AS r FROM vals() SELECT * FROM X9(zz=1)",
		"LET X9 <= SELECT " + x + " AS r FROM vals() SELECT * FROM X9",
		"LET X9(zz) = SELECT zz AS r FROM vals() LIMIT 1 SELECT * FROM foreach(row={ SELECT * FROM vals() }, query={ SELECT * FROM X9(zz=" + x + ") })",
	} {
		if tier == Quick && i > 0 && (i+len(x))%2 == 0 {
			continue
		}
		got := meaning(t, s)
		// Rows, effects and messages of the last statement.
		got = strings.TrimLeft(got, "|")
		if got != want && !(strings.Contains(got, "<*") || strings.Contains(want, "<*")) {
			t.Fail("inline", "%s gives\n   %s\n but %s gives\n   %s", stmt, trunc(want, 600), s, trunc(got, 600))
			return
		}
	}
	t.Sig("%s", trunc(want, 200))
}

// c14Args are the ways to write an argument and what each row's value is.
var c14Args = []struct {
	text string
	want func(a int64) string
}{
	{"[]", func(a int64) string { return "[]" }},
	{"[7]", func(a int64) string { return "7" }},
	{"[7,]", func(a int64) string { return "[7]" }},
	{"[a, 7]", func(a int64) string { return fmt.Sprintf("[%d,7]", a) }},
	{"(a, 7)", func(a int64) string { return fmt.Sprintf("[%d,7]", a) }},
	{"(a,)", func(a int64) string { return fmt.Sprintf("[%d]", a) }},
	{"a", func(a int64) string { return fmt.Sprint(a) }},
	{"a + 1", func(a int64) string { return fmt.Sprint(a + 1) }},
	{"-a", func(a int64) string { return fmt.Sprint(-a) }},
	{"NULL", func(a int64) string { return "NULL" }},
	{"FALSE", func(a int64) string { return "false" }},
	{"a AND 0", func(a int64) string { return "false" }},
	{"dict(k=a)", func(a int64) string { return fmt.Sprintf("{k:%d}", a) }},
	{"dict(k=[])", func(a int64) string { return "{k:[]}" }},
	{"{ SELECT a FROM vals() }", func(a int64) string { return "[{a:1},{a:2}]" }},
	{"{ SELECT a FROM vals() WHERE FALSE }", func(a int64) string { return "[]" }},
	{"I(z=a)", func(a int64) string { return fmt.Sprint(a) }},
	{"I(z=[])", func(a int64) string { return "[]" }},
	{"J()", func(a int64) string { return "[]" }},
}

// c14Expand replaces queries inside of a value by their rows.
func c14Expand(e *Env, v any) any {
	switch t := v.(type) {
	case types.StoredQuery:
		var rows []any
		for r := range t.Eval(bg, e.scope) {
			rows = append(rows, c14Expand(e, rowDict(bg, e.scope, r)))
		}
		return rows
	case *Dict:
		r := D()
		for _, i := range t.Items() {
			r.Set(i.Key, c14Expand(e, i.Value))
		}
		return r
	case []types.Row:
		r := []any{}
		for _, x := range t {
			r = append(r, c14Expand(e, x))
		}
		return r
	case []any:
		r := []any{}
		for _, x := range t {
			r = append(r, c14Expand(e, x))
		}
		return r
	}
	return v
}

func c14Arguments(t *T, i, j int) {
	x, y := c14Args[i], c14Args[j]
	e, _ := c14Env(t)
	e.query("LET I(z) = z LET J(z=[]) = z LET C(p, q) = dict(p=p, q=q) LET E(r, p) = C(p=p, q=r) LET S(p, q) = SELECT p, q FROM one() LET SE(q, p) = SELECT * FROM S(p=p, q=q) " +
		"LET L(p, q) = (p, q) LET DC(p=" + x.text + ", q=" + y.text + ") = dict(p=p, q=q) LET DS(p=" + x.text + ", q=" + y.text + ") = SELECT p, q FROM one() LET DM(q, p=" + x.text + ") = dict(p=p, q=q)")
	dict := func(p, q string) string { return "{p:" + p + ",q:" + q + "}" }
	same := dict
	list := func(p, q string) string { return "[" + p + "," + q + "]" }
	rows := func(p, q string) string { return "[" + dict(p, q) + "]" }
	A, B := x.text, y.text
	for _, c := range []struct {
		x    string
		want func(p, q string) string
	}{
		{"dict(p=" + A + ", q=" + B + ")", dict},
		{"C(p=" + A + ", q=" + B + ")", dict},
		{"C(q=" + B + ", p=" + A + ")", dict},
		{"E(p=" + A + ", r=" + B + ")", dict},
		{"L(p=" + A + ", q=" + B + ")", list},
		{"S(p=" + A + ", q=" + B + ")", rows},
		{"SE(p=" + A + ", q=" + B + ")", rows},
		{"DC()", same},
		{"DC(q=" + B + ")", same},
		{"DC(p=" + A + ")", same},
		{"DS()", rows},
		{"DS(q=" + B + ")", rows},
		{"DM(q=" + B + ")", dict},
		{"{ SELECT * FROM S(p=" + A + ", q=" + B + ") }", nil},
		{"{ SELECT * FROM SE(q=" + B + ", p=" + A + ") }", nil},
		{"{ SELECT * FROM DS() }", nil},
		{"{ SELECT * FROM DS(p=" + A + ") }", nil},
		{"{ SELECT p, q FROM SE(q=" + B + ", p=" + A + ") }", nil},
	} {
		w := c.want
		if w == nil {
			w = same
		}
		q := "SELECT " + c.x + " AS r FROM vals()"
		res := e.run(bg, mustParse(t, q)...)
		var want []string
		for _, a := range []int64{1, 2} {
			want = append(want, w(x.want(a), y.want(a)))
		}
		var got []string
		for _, r := range res {
			v, _ := r.Get("r")
			got = append(got, show(c14Expand(e, v)))
		}
		t.Sig("%s", join(got))
		if !expect(t, "arguments", q+" with "+A+" , "+B, join(got), join(want)) {
			return
		}
	}
	settle(t, "arguments")
}

func init() {
	register(&Prop{
		ID:    "C14",
		Level: "model_checking",
		Rule:  "after every definition each use gives the value (and, for expressions, evaluates exactly the calls) that the reference interpreter with dynamic scope gives",
		Suites: []Suite{
			{
				Name:  "expressions",
				Bound: "all programs of two definitions (thorough three) with 23 bodies x 9 forms of parameters and operators, in both orders and redefining the same name, x 17 uses",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					c14Cases(tier, c14Exprs, c14Uses("X", "Y"), true, y)
				}),
			},
			{
				Name:  "queries",
				Bound: "the same with 20 bodies, most of them queries, x 15 uses as source, function and value",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					c14Cases(tier, c14Queries, c14QueryUses("X", "Y"), false, y)
				}),
			},
			{
				Name:  "arguments",
				Bound: "all ordered pairs of 19 ways to write an argument (lists, braces, queries, calls) in 18 ways of calling functions, stored expressions and stored queries, directly, nested and as defaults",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for i := range c14Args {
						for j := range c14Args {
							i, j := i, j
							if !y(Case{c14Args[i].text + " , " + c14Args[j].text, func(t *T) { c14Arguments(t, i, j) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "inline",
				Bound: "all expressions of the pool, written in place and through 10 forms of definition (quick: 5 or 6 of them)",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(Quick, poolExprs, y, func(t *T, x string) { c14Inline(t, tier, x) })
				}),
			},
		},
	})
}
