package main

import (
	"fmt"
	"iter"
	"strings"

	vfilter "REPO"
	"REPO/types"
)

func c01Shapes() []*Dict {
	null := types.Null{}
	return []*Dict{
		D("a", int64(1), "b", "x"),
		D("a", int64(2), "b", null),
		D("a", int64(0), "b", ""),
		D("b", "x", "a", int64(1), "c", int64(7)),
		D("a", null),
		D("b", "y"),
		D(),
	}
}

func c01Cols() []Col {
	a, b, v := xName("a"), xName("b"), xName("v")
	i1 := xLit("1", int64(1))
	return []Col{
		{a, ""}, {b, ""}, {a, "x"}, {xOp("+", a, i1), "y"}, {xOp("+", a, i1), ""},
		{v, ""}, {xName("zz"), ""}, {xLit("'lit'", "lit"), "s"}, {a, "b"}, {b, "a"},
		{xDict("k", a), "d"}, {xFx(a, "e"), "e"}, {xNeg("a"), "neg"}, {xOp("=", a, i1), "q"},
		{xList(a, b), "l"}, {xLit("NULL", nil), "n"}, {xIf(a, b, xLit("'E'", "E")), "i"},
		{xMember(xDict("k", b), "k"), "m"}, {xOp("AND", a, b), "an"}, {xPar(xOp("OR", b, a)), "o"},
		{xOp("+", b, b), "`two words`"}, {xFx(b, "v"), "v"},
	}
}

func fixNames(c Col) Col { return c }

func c01Wheres() []*X {
	a, b, v := xName("a"), xName("b"), xName("v")
	i1 := xLit("1", int64(1))
	i2 := xLit("2", int64(2))
	xs := []X{
		a, xOp("=", a, i1), xOp(">", a, i1), xName("x"), xOp("=", xName("y"), i2), xNot(a), b, xName("zz"),
		xOp("AND", a, b), xOp("OR", a, b), xFx(a, "w"), xFx(xName("e"), "w"), v, i1, xLit("0", int64(0)), xLit("NULL", nil),
		xLit("''", ""), xLit("'x'", "x"), xOp("IN", a, xList(i1, i2)), xOp("AND", xOp("<", a, i2), xNot(b)),
		xOp("<=", a, i1), xOp("!=", b, xLit("'x'", "x")), xMember(xName("d"), "k"), xLit("-1", int64(-1)), xOp("=", xName("zz"), xLit("NULL", nil)),
	}
	res := []*X{nil}
	for i := range xs {
		res = append(res, &xs[i])
	}
	return res
}

func c01Lists(tier Tier) [][]Col {
	cols := c01Cols()
	star := Col{}
	var res [][]Col
	res = append(res, []Col{star})
	for _, c := range cols {
		res = append(res, []Col{c}, []Col{star, c}, []Col{c, star})
	}
	for _, c := range cols {
		for _, d := range cols {
			res = append(res, []Col{c, d})
			if tier == Thorough {
				res = append(res, []Col{star, c, d}, []Col{c, d, star}, []Col{c, star, d})
			}
		}
	}
	three := []int{0, 1, 3, 8, 9, 11}
	if tier == Thorough {
		three = []int{0, 1, 2, 3, 5, 8, 9, 11, 12, 15}
	}
	for _, i := range three {
		for _, j := range three {
			res = append(res, []Col{cols[i], star, cols[j]})
			for _, k := range three {
				res = append(res, []Col{cols[i], cols[j], cols[k]})
			}
		}
	}
	return res
}

// The different ways a table becomes a row source.
var sources = []struct {
	name  string
	setup string
	from  string
}{
	{"variable", "", "T"},
	{"stored", "LET S = SELECT * FROM T", "S"},
	{"materialized", "LET S <= SELECT * FROM T", "S"},
	{"plugin", "", "tab()"},
	{"chain", "", "chain(a={SELECT * FROM T})"},
	{"foreach", "", "foreach(row=T)"},
	{"foreach-query", "", "foreach(row={SELECT * FROM T}, query={SELECT * FROM scope() WHERE FALSE}, column='x')"},
	{"expr", "LET S = T", "S"},
	{"call", "LET S(p) = SELECT * FROM p", "S(p=T)"},
	{"if", "", "if(condition=1, then={SELECT * FROM T})"},
	{"nested", "LET U = SELECT * FROM T LET S = SELECT * FROM U", "S"},
}

func tabPlugin(e *Env, rows func() []types.Row) {
	e.scope.AppendPlugins(vfilter.GenericListPlugin{
		PluginName: "tab",
		Function:   listRows(rows),
	})
}

func c01Run(t *T, q *Q, setup string, table []*Dict) {
	e := newEnv(t)
	e.set("v", "outer")
	e.set("T", copyTable(table))
	tabPlugin(e, func() []types.Row { return copyTable(table) })
	text := setup + " " + q.text()
	stmts := mustParse(t, text)
	rows := e.run(bg, stmts...)
	got := showRows(rows)
	trace := e.takeTrace()
	me := newMenv(newMd("v", "outer"))
	want := mshowRows(q.eval(me, mtable(table)))
	expect(t, "rows", text+" over "+mshowRows(mtable(table)), got, want)
	expect(t, "effects", text+" over "+mshowRows(mtable(table)), trace, join(*me.trace))
	t.Sig("%s|%s", got, trace)
	for _, l := range e.errorLogs() {
		if len(l) > 7 && l[:7] == "ERROR:S" {
			continue // unknown symbol
		}
		t.Fail("log", "%s: unexpected log message %s", text, l)
	}
	settle(t, "select")
}

func init() {
	register(&Prop{
		ID:    "C01",
		Level: "model_checking",
		Rule:  "every query's rows, their columns and the log of evaluated calls equal those of the reference evaluator; no goroutine is left",
		Assume: []string{
			"the reference evaluator in harness/model.go states the language's semantics",
		},
		Suites: []Suite{
			{
				Name: "sizes", NoRace: true, Steps: 1 << 30,
				Bound: "n = 0..34 and around 50, 64, 100, 128, 200, 256 and 300 (thorough: 0..300 and around 512, 1000 and 1024) rows through 13 kinds of source, complete and filtered",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 0, y, sizeSelect) }),
			},
			{
				Name: "wide", NoRace: true, Steps: 1 << 30,
				Bound: "n = 0..34 and around 50, 64, 100, 128, 200, 256 and 300 (thorough: 0..300 and around 512, 1000 and 1024) columns, list items, operands and arguments; nesting up to 120",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 0, y, sizeColumns) }),
			},
			{
				Name:  "select-where",
				Bound: "all column lists of length 1-2 (3 over a sub-pool) from a pool of 22 with * in every place x 26 WHERE clauses over a table of all 7 row shapes",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, cols := range c01Lists(tier) {
						for wi, w := range c01Wheres() {
							if tier == Quick && len(cols) == 3 && wi%5 != 0 {
								continue
							}
							cols := cols
							q := &Q{cols: unquoteCols(cols), where: w, limit: -1, from: "T"}
							if !y(Case{q.text(), func(t *T) { c01Run(t, q, "", c01Shapes()) }}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "tables",
				Bound: "all tables of at most 2 rows (thorough 3) over 7 row shapes x 12 queries x 10 kinds of row source",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 2
					if tier == Thorough {
						n = 3
					}
					c := c01Cols()
					ws := c01Wheres()
					lists := [][]Col{{{}}, {c[0], c[1]}, {{}, c[3]}, {c[11], {}}, {c[9], c[8]}}
					for si, s := range sources {
						if s.name == "foreach-query" {
							continue
						}
						for ti, tb := range tables(c01Shapes(), 0, n) {
							for li, l := range lists {
								for _, wi := range []int{0, 1, 2, 7} {
									if tier == Quick && (ti+li+wi+si)%3 != 0 {
										continue
									}
									q := &Q{cols: unquoteCols(l), where: ws[wi], limit: -1, from: s.from}
									if !y(Case{fmt.Sprintf("%s %s table %d", s.setup, q.text(), ti), func(t *T) { c01Run(t, q, s.setup, tb) }}) {
										return
									}
								}
							}
						}
					}
				}),
			},
			{
				Name:  "truth",
				Bound: "some 88 values of all types (built in, typed, pointers, lists, dicts, queries) x 12 WHERE clauses which use the value as the condition",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, v := range c22Vals() {
						for _, w := range c01TruthWheres {
							if v.kind == "other" && strings.HasPrefix(w.text, "dict") {
								continue // dict() turns maps into dicts
							}
							if v.kind == "other" && strings.HasPrefix(w.text, "dict") {
								continue // dict() turns maps into dicts
							}
							if !y(Case{v.name + " WHERE " + w.text, func(t *T) { c01Truth(t, v, w.text, w.not) }}) {
								return
							}
						}
					}
				}),
			},
		},
	})
}

var c01TruthWheres = []struct {
	text string
	not  int // 0: the value, 1: its negation, 2: always
}{
	{"a", 0}, {"V", 0}, {"x", 0}, {"(a)", 0}, {"L", 0}, {"dict(k=a).k", 0}, {"if(condition=TRUE, then=a)", 0},
	{"a AND TRUE", 0}, {"FALSE OR a", 0},
	{"NOT a", 1}, {"NOT (V)", 1}, {"a, V", 2},
}

func c01Truth(t *T, v c22Val, where string, not int) {
	e := newEnv(t)
	rows := []types.Row{D("i", int64(1), "a", int64(1), "b", int64(1)), D("i", int64(2), "a", v.v), D("i", int64(3), "a", v.v, "b", nil)}
	e.set("T", rows)
	e.set("V", v.v)
	truth := e.scope.Bool(v.v)
	want := v.t > 0
	if v.t != 0 && truth != want {
		t.Fail("truth", "%s is %v", v.name, truth)
	}
	text := "LET L = V SELECT i, a AS x FROM T WHERE " + where
	got := ""
	for _, r := range e.run(bg, mustParse(t, text)...) {
		i, _ := e.scope.Associative(r, "i")
		got += fmt.Sprint(i)
	}
	first := map[bool]string{true: "1", false: ""}
	switch {
	case not == 2:
		want, first[true], first[false] = true, "1", "1"
	case where == "V" || where == "L":
		want, first[true], first[false] = truth, "1", ""
	case not == 1 && where == "NOT a":
		want, first[true], first[false] = !truth, "", ""
	case not == 1:
		want, first[true], first[false] = !truth, "1", ""
	default:
		want, first[false] = truth, "1"
	}
	w := first[want]
	if want {
		w += "23"
	}
	expect(t, "where", v.name+": "+text, got, w)
	t.Sig("%v", truth)
	settle(t, "select")
}

var _ iter.Seq[int]
