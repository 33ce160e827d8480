package main

import (
	"fmt"
	"math"

	"REPO/types"
)

func c04Keys() []any {
	return []any{int64(1), "1", int64(2), "a", "a b", "b", types.Null{}, "NULL", "", missing, 1.5, "1.5",
		[]any{int64(1)}, "[1]", []any{"1"}, []any{}, false, "false", D("a", int64(1)), D("a", "1"), float64(2), uint16(2), 1e6, int64(1000000), int64(-1),
		-1e6, int64(-1000000), 0.0, math.Copysign(0, -1), int8(0), -2.5, float64(-1)}
}

func c04Table(idx []int, keys []any) []*Dict {
	var tb []*Dict
	for i, k := range idx {
		d := D("id", int64(i))
		if keys[k] != missing {
			d.Set("k", keys[k])
		}
		d.Set("v", int64(i*i-2))
		tb = append(tb, d)
	}
	return tb
}

func c04Queries() []*Q {
	k, id, v := xName("k"), xName("id"), xName("v")
	cnt := Col{xAgg(1, "count", X{}), "c"}
	sum := Col{xAgg(2, "sum", v), "s"}
	min := Col{xAgg(3, "min", v), "mi"}
	max := Col{xAgg(4, "max", v), "ma"}
	enum := Col{xAgg(5, "enumerate", id), "e"}
	w := xOp(">", id, xLit("0", int64(0)))
	odd := xOp("=", v, xLit("-1", int64(-1)))
	return []*Q{
		{cols: []Col{{k, ""}, cnt, enum}, group: []X{k}},
		{cols: []Col{{k, "z"}, sum, min, max, {id, ""}}, group: []X{xName("z")}},
		{cols: []Col{{}, cnt}, group: []X{k}, where: &w},
		{cols: []Col{enum, {xFx(k, "k"), "f"}}, group: []X{k}},
		{cols: []Col{enum, {xFx(k, "k"), "f"}}, group: []X{xName("f")}, where: &w},
		{cols: []Col{enum}, group: []X{xLit("1", int64(1))}},
		{cols: []Col{enum, cnt, {xAgg(6, "count", X{}), "c2"}}, group: []X{xOp("=", id, xLit("0", int64(0)))}},
		{cols: []Col{enum, {k, ""}}, group: []X{k, odd}},
		{cols: []Col{enum}, group: []X{xName("nosuch"), k}},
		{cols: []Col{{id, ""}}, group: []X{xOp("+", v, xLit("1", int64(1)))}},
		{cols: []Col{{xOp("+", xAgg(1, "count", X{}), xAgg(2, "sum", v)), "x"}, {xDict("k", xAgg(5, "enumerate", id)), "d"}}, group: []X{k}},
		{cols: []Col{{xIf(xOp("=", id, xLit("1", int64(1))), xAgg(1, "count", X{}), xAgg(2, "count", X{})), "x"}}, group: []X{k}},
	}
}

func c04Check(t *T, q *Q, setup string, tb []*Dict) {
	rows, trace, e := runQ(t, setup, q.text(), tb)
	me := newMenv(newMd())
	what := setup + " " + q.text() + " over " + showRows(tb)
	expect(t, "rows", what, showRows(rows), mshowRows(q.eval(me, mtable(tb))))
	expect(t, "effects", what, trace, join(*me.trace))
	t.Sig("%s", showRows(rows))
	for _, l := range e.errorLogs() {
		if len(l) > 7 && l[:7] != "ERROR:S" {
			t.Fail("log", "%s: logged %s", what, l)
		}
	}
	settle(t, "group by")
}

// c04Custom: the query written with a mapping of the grouping value, so that
// the reference does not evaluate the grouping.
func init() {
	register(&Prop{
		ID:     "C04",
		Level:  "model_checking",
		Rule:   "rows, bins, aggregates and side effects equal those of the reference evaluator",
		Assume: []string{"numbers with equal value are one grouping value; a boolean and a number are not compared"},
		Suites: []Suite{
			{
				Name: "sizes", NoRace: true, Steps: 1 << 30,
				Bound: "n = 0..34 and around 50, 64, 100, 128, 200, 256 and 300 (thorough: 0..300 and around 512, 1000 and 1024) rows in groups of one, 3 groups and one group",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 0, y, sizeGroups) }),
			},
			{
				Name:  "key pairs",
				Bound: "all tables of 0..2 rows over 32 grouping values of all types (thorough 3 rows) x 12 queries with aggregates, WHERE, aliases, several grouping expressions",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					keys := c04Keys()
					max := 2
					if tier == Thorough {
						max = 3
					}
					seqs(len(keys), 0, max, func(idx []int) bool {
						tb := c04Table(idx, keys)
						for qi, q := range c04Queries() {
							if len(idx) == 3 && (qi+idx[0]+idx[2])%4 != 0 {
								continue
							}
							q := *q
							q.limit, q.from = -1, "T"
							if !y(Case{fmt.Sprintf("%v %s", idx, q.text()), func(t *T) { c04Check(t, &q, "", tb) }}) {
								return false
							}
						}
						return true
					})
				}),
			},
			{
				Name:  "histories",
				Bound: "all tables of 3..5 rows (thorough 6) over 3 grouping values x 12 queries x 4 kinds of source, with ORDER BY and LIMIT",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					keys := []any{int64(1), "a", types.Null{}}
					max := 5
					if tier == Thorough {
						max = 6
					}
					from := []string{"T", "tab()", "S", "foreach(row={SELECT * FROM T})"}
					n := 0
					seqs(len(keys), 3, max, func(idx []int) bool {
						tb := c04Table(idx, keys)
						for _, q := range c04Queries() {
							n++
							q := *q
							q.limit = -1
							if n%3 == 0 {
								q.limit = n % 4
							}
							q.from = from[n%4]
							setup := ""
							if q.from == "S" {
								setup = "LET S = SELECT * FROM T"
							}
							if !y(Case{fmt.Sprintf("%v %s", idx, q.text()), func(t *T) { c04Check(t, &q, setup, tb) }}) {
								return false
							}
						}
						return true
					})
				}),
			},
			{
				Name:  "tuples",
				Bound: "all tables of 2 rows (thorough 3) over pairs from 8 confusable grouping values, GROUP BY of 2 and 3 expressions",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					keys := []any{"a", "a b", "b", "", " ", types.Null{}, "c,d", []any{"a", "b"}}
					n := len(keys) * len(keys)
					max := 2
					if tier == Thorough {
						max = 3
					}
					seqs(n, 2, max, func(idx []int) bool {
						if len(idx) == 3 && idx[0] > idx[1] {
							return true
						}
						var tb []*Dict
						for i, x := range idx {
							tb = append(tb, D("id", int64(i), "k", keys[x%len(keys)], "l", keys[x/len(keys)]))
						}
						enum := Col{xAgg(5, "enumerate", xName("id")), "e"}
						for _, g := range [][]X{{xName("k"), xName("l")}, {xName("l"), xLit("' '", " "), xName("k")}, {xList(xName("k"), xName("l"))}} {
							q := &Q{cols: []Col{enum}, group: g, limit: -1, from: "T"}
							if !y(Case{fmt.Sprintf("%v %s", idx, q.text()), func(t *T) { c04Check(t, q, "", tb) }}) {
								return false
							}
						}
						return true
					})
				}),
			},
		},
	})
}
