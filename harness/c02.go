package main

import (
	"fmt"
	"sort"
	"strings"

	"REPO/types"
)

// runQ runs setup and the query and returns the rows.
func runQ(t *T, setup, text string, table []*Dict) ([]*Dict, string, *Env) {
	e := newEnv(t)
	e.set("T", copyTable(table))
	tabPlugin(e, func() []types.Row { return copyTable(table) })
	rows := e.run(bg, mustParse(t, setup+" "+text)...)
	trace := e.takeTrace()
	return rows, trace, e
}

func multiset(rows []*Dict) string {
	var p []string
	for _, r := range rows {
		p = append(p, show(r))
	}
	sort.Strings(p)
	return strings.Join(p, ";")
}

func nullKey(v any) any {
	switch v.(type) {
	case nil, types.Null, *types.Null:
		return nil
	}
	return mval(v)
}

// checkOrdered runs the query with and without ORDER BY / LIMIT.
func checkOrdered(t *T, q Q, setup string, table []*Dict) {
	plain := q
	plain.order, plain.limit = "", -1
	base, baseTrace, _ := runQ(t, setup, plain.text(), table)
	full := q
	full.limit = -1
	rows, trace, e := runQ(t, setup, full.text(), table)
	what := setup + " " + q.text() + " over " + showRows(table)
	expect(t, "multiset", what, multiset(rows), multiset(base))
	expect(t, "effects", what, trace, baseTrace)
	for i := range rows {
		a, _ := rows[i].Get(q.order)
		for j := i + 1; j < len(rows); j++ {
			b, _ := rows[j].Get(q.order)
			x, y := nullKey(a), nullKey(b)
			bad := mLess(y, x)
			if q.desc {
				bad = mLess(x, y)
			}
			if bad {
				t.Fail("order", "%s: row %d (%s) comes before row %d (%s)", what, i, show(rows[i]), j, show(rows[j]))
				return
			}
			if lt := e.scope.Lt(b, a); j == i+1 && (!q.desc && lt || q.desc && e.scope.Gt(b, a)) {
				t.Fail("order-scope", "%s: row %d (%s) comes before row %d (%s)", what, i, show(rows[i]), j, show(rows[j]))
			}
		}
	}
	t.Sig("%s", showRows(rows))
	if q.limit >= 0 {
		lim, _, _ := runQ(t, setup, q.text(), table)
		n := q.limit
		if n > len(rows) {
			n = len(rows)
		}
		expect(t, "limit", what, showRows(lim), showRows(rows[:n]))
	}
	settle(t, "order by")
}

func c02Table(keys []any, idx []int) []*Dict {
	var tb []*Dict
	for i, k := range idx {
		d := D("id", int64(i))
		if keys[k] != missing {
			d.Set("k", keys[k])
		}
		d.Set("g", int64(k%2))
		tb = append(tb, d)
	}
	return tb
}

type missingT struct{}

var missing = any(missingT{})

var c02Keys = map[string][]any{
	"numbers":      {int64(1), int64(2), 1.5, int64(-3), types.Null{}, missing},
	"strings":      {"", "a", "b", "ab", types.Null{}, missing},
	"mixed widths": {int8(1), uint16(3), float32(2), int64(1 << 40), -0.5, true},
}

func c02Queries() []Q {
	k, id, g := xName("k"), xName("id"), xName("g")
	star := Col{}
	return []Q{
		{cols: []Col{star}, order: "k", from: "T"},
		{cols: []Col{{id, ""}, {k, "z"}}, order: "z", from: "T"},
		{cols: []Col{{xFx(k, "k"), "z"}, {id, ""}}, order: "z", from: "tab()"},
		{cols: []Col{{id, ""}}, order: "k", from: "T"}, // not an output column
		{cols: []Col{star}, order: "k", from: "T", where: &X{s: "g = 0", f: nil}},
		{cols: []Col{{k, ""}, {xAgg(1, "count", X{}), "c"}}, group: []X{k}, order: "k", from: "T"},
		{cols: []Col{{g, ""}, {xAgg(1, "count", X{}), "c"}, {xAgg(2, "max", id), "m"}}, group: []X{g}, order: "m", from: "T"},
		{cols: []Col{{k, "`order by`"}, {id, ""}}, order: "order by", from: "T"},
		{cols: []Col{{k, "`order by`"}, {xAgg(1, "count", X{}), "c"}}, group: []X{k}, order: "order by", from: "T"},
		{cols: []Col{{id, ""}, {k, ""}}, order: "k", from: "foreach(row={SELECT * FROM T ORDER BY id DESC})"},
	}
}

func init() {
	register(&Prop{
		ID:    "C02",
		Level: "model_checking",
		Rule:  "the output is a permutation of the unordered output, sorted with NULL first; LIMIT is its prefix; side effects are unchanged",
		Suites: []Suite{
			{
				Name:  "small tables",
				Bound: "all tables of at most 4 rows (thorough 5) over pools of 6 sort keys (numbers, strings, other number types; NULL, missing, duplicates) x 10 queries x ASC/DESC x LIMIT none,0..3",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 4
					if tier == Thorough {
						max = 5
					}
					for _, pool := range []string{"numbers", "strings", "mixed widths"} {
						keys := c02Keys[pool]
						n := 0
						ok := seqs(len(keys), 0, max, func(idx []int) bool {
							n++
							tb := c02Table(keys, idx)
							for qi, q := range c02Queries() {
								// Longest tables: spread the queries.
								if len(idx) == max && (n+qi)%4 != 0 && tier == Quick {
									continue
								}
								for _, desc := range []bool{false, true} {
									q := q
									q.desc = desc
									q.limit = (n+qi)%5 - 1
									if !y(Case{fmt.Sprintf("%s %v %s", pool, idx, q.text()), func(t *T) { c02Check(t, q, tb) }}) {
										return false
									}
								}
							}
							return true
						})
						if !ok {
							return
						}
					}
				}),
			},
			{
				Name:  "long tables",
				Bound: "tables of n rows for n up to 70 (thorough 200) in 8 patterns (sorted, reversed, organ pipe, sawtooth, two values, all equal, with NULLs, scattered) x ASC/DESC",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					max := 70
					if tier == Thorough {
						max = 200
					}
					for n := 5; n <= max; n++ {
						for p := 0; p < 8; p++ {
							var tb []*Dict
							for i := 0; i < n; i++ {
								var k any
								switch p {
								case 0:
									k = int64(i)
								case 1:
									k = int64(n - i)
								case 2:
									k = int64(i * (n - i))
								case 3:
									k = int64(i % 7)
								case 4:
									k = int64(i * i % 2)
								case 5:
									k = int64(1)
								case 6:
									k = int64(i * 5 % 11)
									if i%3 == 0 {
										k = types.Null{}
									}
								case 7:
									k = float64(i*37%101) / 2
								}
								tb = append(tb, D("id", int64(i), "k", k))
							}
							for _, desc := range []bool{false, true} {
								q := Q{cols: []Col{{}}, order: "k", desc: desc, limit: n / 2, from: "T"}
								if !y(Case{fmt.Sprintf("n=%d pattern %d %s", n, p, q.text()), func(t *T) { c02Check(t, q, tb) }}) {
									return
								}
							}
						}
					}
				}),
			},
		},
	})
}

func c02Check(t *T, q Q, tb []*Dict) { checkOrdered(t, q, "", tb) }
