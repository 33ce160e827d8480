package main

import (
	"fmt"
	"github.com/Velocidex/ordereddict"
	"strings"

	"REPO/types"
)

// Size sweeps: every size up to a bound that passes the limits an
// implementation may have (one byte, chunks, caches), for queries whose
// result is known for each size.

// sizeCases yields each size up to 34, those around the limits an
// implementation may have, and in the thorough tier all up to 300.
func sizeCases(tier Tier, max int, y func(Case) bool, f func(t *T, n int)) {
	for n := 0; n <= 1025; n++ {
		if max > 0 && n > max {
			return
		}
		near := false
		for _, k := range []int{50, 64, 100, 128, 200, 256, 300} {
			near = near || n >= k-1 && n <= k+1
		}
		switch {
		case n <= 34 || n <= 300 && (near || tier == Thorough):
		case tier == Thorough && (n > 1022 || n > 510 && n < 514 || n > 998 && n < 1002):
		default:
			continue
		}
		if !y(Case{fmt.Sprintf("size %d", n), func(t *T) { f(t, n) }}) {
			return
		}
	}
}

func sizeRange(lo, hi int, f func(i int) string, sep string) string {
	var r []string
	for i := lo; i < hi; i++ {
		r = append(r, f(i))
	}
	return strings.Join(r, sep)
}

// sizeSelect: rows pass through every kind of source.
func sizeSelect(t *T, n int) {
	e := newEnv(t)
	var tb []*Dict
	list := []any{}
	for i := 0; i < n; i++ {
		tb = append(tb, D("i", int64(i)))
		list = append(list, D("i", int64(i)))
	}
	e.set("T", copyTable(tb))
	e.set("L", list)
	e.query(fmt.Sprintf("LET S = SELECT * FROM gen(n=%d) LET M <= SELECT * FROM gen(n=%d) LET P(k) = SELECT * FROM gen(n=k)", n, n))
	tabPlugin(e, func() []types.Row { return copyTable(tb) })
	row := func(i int) string { return fmt.Sprintf("{i:%d}", i) }
	all := sizeRange(0, n, row, ";")
	for _, s := range []string{fmt.Sprintf("gen(n=%d)", n), "T", "L", "tab()", "S", "M", fmt.Sprintf("P(k=%d)", n), "foreach(row=T)", "foreach(row={ SELECT * FROM S }, query={ SELECT i FROM scope() })",
		"chain(a={ SELECT * FROM T WHERE i < 5 }, b={ SELECT * FROM M WHERE i >= 5 })", "if(condition=1, then={ SELECT * FROM L })"} {
		expect(t, "rows", fmt.Sprintf("SELECT * FROM %s of %d", s, n), showRows(e.query("SELECT * FROM "+s)), all)
		expect(t, "half", fmt.Sprintf("half of %s of %d", s, n), showRows(e.query(fmt.Sprintf("SELECT i FROM %s WHERE i >= %d", s, n/2))), sizeRange(n/2, n, row, ";"))
	}
	expect(t, "range", fmt.Sprint(n), showRows(e.query(fmt.Sprintf("SELECT _value AS i FROM range(start=0, end=%d, step=1)", n))), all)
	expect(t, "flatten", fmt.Sprint(n), showRows(e.query("SELECT * FROM flatten(query={ SELECT L.i AS i FROM scope() })")), c01Flat(n, all))
	expect(t, "column", fmt.Sprint(n), showRows(e.query("SELECT S.i AS a, M.i AS b, L.i AS c FROM scope()")),
		fmt.Sprintf("{a:[%[1]s],b:[%[1]s],c:[%[1]s]}", sizeRange(0, n, func(i int) string { return fmt.Sprint(i) }, ",")))
	settle(t, fmt.Sprint(n))
	t.Sig("%d", n)
}

// flatten() of an empty list gives a row with it; see C25.
func c01Flat(n int, all string) string {
	if n == 0 {
		return "{i:[]}"
	}
	return all
}

// sizeColumns: wide rows and long expressions.
func sizeColumns(t *T, n int) {
	e := newEnv(t)
	var cols, want []string
	for i := 0; i < n+1; i++ {
		cols = append(cols, fmt.Sprintf("i + %d AS c%d", i, i))
		want = append(want, fmt.Sprintf("c%d:%d", i, i))
	}
	text := "SELECT " + strings.Join(cols, ", ") + " FROM gen(n=1)"
	expect(t, "columns", fmt.Sprintf("%d columns", n+1), showRows(e.query(text)), "{"+strings.Join(want, ",")+"}")
	one := func(s string) string { return showRows(e.query("SELECT " + s + " AS v FROM scope()")) }
	nums := sizeRange(1, n+2, func(i int) string { return fmt.Sprint(i) }, ", ")
	expect(t, "list", fmt.Sprint(n), one("("+nums+", )"), "{v:["+strings.ReplaceAll(nums, " ", "")+"]}")
	expect(t, "sum", fmt.Sprint(n), one(strings.ReplaceAll(nums, ",", " +")), fmt.Sprintf("{v:%d}", (n+1)*(n+2)/2))
	expect(t, "and", fmt.Sprint(n), one(strings.ReplaceAll(nums, ",", " AND")+" AND TRUE"), "{v:true}")
	expect(t, "and0", fmt.Sprint(n), one(strings.ReplaceAll(nums, ",", " AND")+" AND 0"), "{v:false}")
	expect(t, "or", fmt.Sprint(n), one("if(condition=0 OR "+strings.Repeat("NULL OR ", n)+"7, then=1, else=2)"), "{v:1}")
	expect(t, "or0", fmt.Sprint(n), one("if(condition=0 OR "+strings.Repeat("NULL OR ", n)+"'', then=1, else=2)"), "{v:2}")
	kv := sizeRange(0, n, func(i int) string { return fmt.Sprintf("k%d=%d", i, i) }, ", ")
	expect(t, "dict", fmt.Sprint(n), one("dict("+kv+")"), "{v:{"+strings.NewReplacer("=", ":", " ", "").Replace(kv)+"}}")
	if n < 10 {
		// (Results are cut off below ten levels.)
		expect(t, "nested list", fmt.Sprint(n), one(strings.Repeat("(", n+1)+"5"+strings.Repeat(", )", n+1)), "{v:"+strings.Repeat("[", n+1)+"5"+strings.Repeat("]", n+1)+"}")
	}
	if n < 120 {
		expect(t, "nested dict", fmt.Sprint(n), one(strings.Repeat("dict(a=", n)+"5"+strings.Repeat(")", n)+strings.Repeat(".a", n)), "{v:5}")
	}
	settle(t, fmt.Sprint(n))
	t.Sig("%d", n)
}

// sizeGroups: n rows in groups of 1, in 3 groups and in one.
func sizeGroups(t *T, n int) {
	e := newEnv(t)
	var tb []*Dict
	for i := 0; i < n; i++ {
		tb = append(tb, D("i", int64(i), "t", int64(i%3), "g", fmt.Sprint("s", i)))
	}
	e.set("T", copyTable(tb))
	agg := "count() AS c, sum(item=i) AS s, min(item=i) AS n, max(item=i) AS x, len(list=enumerate(items=i)) AS l"
	row := func(k string, l []int) string {
		s := 0
		for _, i := range l {
			s += i
		}
		return fmt.Sprintf("{k:%s,c:%d,s:%d,n:%d,x:%d,l:%d}", k, len(l), s, l[0], l[len(l)-1], len(l))
	}
	var each, three []string
	var mod [3][]int
	var alls []int
	for i := 0; i < n; i++ {
		each = append(each, row(fmt.Sprint(i), []int{i}))
		mod[i%3] = append(mod[i%3], i)
		alls = append(alls, i)
	}
	for i, l := range mod {
		if len(l) > 0 {
			three = append(three, row(fmt.Sprint(i), l))
		}
	}
	one := ""
	if n > 0 {
		one = row("1", alls)
	}
	q := func(k, by string) string {
		return showRows(e.query("SELECT " + k + " AS k, " + agg + " FROM T GROUP BY " + by))
	}
	expect(t, "each", fmt.Sprint(n), q("i", "i"), strings.Join(each, ";"))
	expect(t, "each by string", fmt.Sprint(n), q("i", "g"), strings.Join(each, ";"))
	expect(t, "each by two", fmt.Sprint(n), q("i", "t, g"), strings.Join(each, ";"))
	expect(t, "three", fmt.Sprint(n), q("t", "t"), strings.Join(three, ";"))
	expect(t, "one", fmt.Sprint(n), q("1", "1"), one)
	settle(t, fmt.Sprint(n))
	t.Sig("%d", n)
}

// sizeAggregates: running values over n rows.
func sizeAggregates(t *T, n int) {
	e := newEnv(t)
	rows := e.query(fmt.Sprintf("SELECT count() AS c, sum(item=i) AS s, min(item=5 - i) AS n, max(item=i) AS x, len(list=enumerate(items=i)) AS l FROM gen(n=%d)", n))
	expect(t, "running", fmt.Sprint(n), showRows(rows), sizeRange(0, n, func(i int) string {
		return fmt.Sprintf("{c:%d,s:%d,n:%d,x:%d,l:%d}", i+1, i*(i+1)/2, 5-i, i, i+1)
	}, ";"))
	if n%5 == 0 {
		rows = e.query(fmt.Sprintf("LET F(x) = dict(c=count(), s=sum(item=x)) SELECT F(x=i).c AS c FROM gen(n=%d) WHERE count()", n))
		expect(t, "called", fmt.Sprint(n), fmt.Sprint(len(rows)), fmt.Sprint(n))
	}
	settle(t, fmt.Sprint(n))
	t.Sig("%d", n)
}

// sizeFunctions: functions of long lists and strings.
func sizeFunctions(t *T, n int) {
	e := newEnv(t)
	num := func(i int) string { return fmt.Sprint(i) }
	csv := sizeRange(0, n+1, num, ",")
	var list []any
	for i := 0; i <= n; i++ {
		list = append(list, int64(i))
	}
	e.set("C", csv)
	e.set("L", list)
	wide := ordereddict.NewDict()
	gomap := map[string]int64{}
	for i := 0; i <= n; i++ {
		wide.Set(fmt.Sprint("k", i), int64(i))
		gomap[fmt.Sprint("k", i)] = int64(i)
	}
	e.set("W", wide)
	e.set("G", gomap)
	row := func(name string) string {
		return sizeRange(0, n+1, func(i int) string { return fmt.Sprintf("{%s:%d}", name, i) }, ";")
	}
	kv := "{" + sizeRange(0, n+1, func(i int) string { return fmt.Sprintf("k%d:%d", i, i) }, ",") + "}"
	for _, c := range []struct{ text, want string }{
		{"SELECT * FROM flatten(query={ SELECT L AS a FROM scope() })", row("a")},
		{"SELECT a FROM flatten(query={ SELECT L AS a, (1, 2) AS b FROM scope() }) WHERE b = 2", row("a")},
		{"SELECT * FROM foreach(row=L)", row("_value")},
		{"SELECT _value AS v FROM foreach(row=L)", row("v")},
		{"SELECT * FROM foreach(row=L, query={ SELECT _value AS v FROM scope() })", row("v")},
		{"SELECT * FROM foreach(row=W)", kv},
		{"SELECT * FROM foreach(row={ SELECT dict(v=_value) AS c FROM foreach(row=L) }, column='c')", row("v")},
		{"SELECT * FROM chain(a={ SELECT _value AS v FROM foreach(row=L) })", row("v")},
		{"SELECT * FROM if(condition=1, then={ SELECT _value AS v FROM foreach(row=L) })", row("v")},
		{"SELECT * FROM flatten(query=L)", row("_value")},
		{"SELECT * FROM chain(a=L)", row("_value")},
		{"SELECT * FROM if(condition=1, then=L)", row("_value")},
		{fmt.Sprintf("SELECT _value AS v FROM range(end=%d)", n+1), row("v")},
		{"SELECT len(list=W) AS w, len(list=G) AS g FROM scope()", fmt.Sprintf("{w:%d,g:%d}", n+1, n+1)},
	} {
		expect(t, "rows", fmt.Sprintf("%s, size %d", c.text, n), showRows(e.query(c.text)), c.want)
	}
	quoted := "[" + sizeRange(0, n+1, func(i int) string { return fmt.Sprintf("%q", num(i)) }, ",") + "]"
	for _, c := range []struct{ text, want string }{
		{"split(string=C, sep=',')", quoted},
		{"split(string=C, sep_string=',')", quoted},
		{"len(list=split(string=C, sep='[,]'))", fmt.Sprint(n + 1)},
		{"len(list=L)", fmt.Sprint(n + 1)}, {"len(list=C)", fmt.Sprint(len(csv))},
		{"L[-1]", fmt.Sprint(n)}, {fmt.Sprintf("L[%d]", n), fmt.Sprint(n)}, {fmt.Sprintf("L[%d]", n+1), "NULL"},
		{fmt.Sprintf("get(item=L, member='%d')", n), fmt.Sprint(n)},
		{fmt.Sprintf("%d IN L", n), "true"}, {fmt.Sprintf("%d IN L", n+1), "false"},
		{fmt.Sprintf("len(list=L[%d:])", n/2), fmt.Sprint(n + 1 - n/2)},
		{"len(list=L + L)", fmt.Sprint(2*n + 2)}, {"if(condition=L = L, then=1)", "1"},
		{"len(list=C + C)", fmt.Sprint(2 * len(csv))},
		{"len(list=encode(string=C, type='hex'))", fmt.Sprint(2 * len(csv))},
		{"format(format='%s', args=[C, ])", fmt.Sprintf("%q", csv)},
		{fmt.Sprintf("format(format='%s', args=L)", strings.Repeat("%v ", n+1)), fmt.Sprintf("%q", strings.ReplaceAll(csv, ",", " ")+" ")},
	} {
		got := ""
		if rows := e.query("SELECT " + c.text + " AS v FROM scope()"); len(rows) == 1 {
			v, _ := rows[0].Get("v")
			got = show(v)
		}
		expect(t, "value", fmt.Sprintf("%s, size %d", trunc(c.text, 60), n), got, c.want)
	}
	for _, l := range e.errorLogs() {
		t.Fail("log", "size %d: %s", n, l)
	}
	settle(t, fmt.Sprint(n))
	t.Sig("%d", n)
}

// sizeLimit: every limit around the number of rows and of groups of n.
func sizeLimit(t *T, n int) {
	e := newEnv(t)
	row := func(i int) string { return fmt.Sprintf("{i:%d}", i) }
	e.query("LET M <= SELECT * FROM gen(n=300)")
	for _, q := range []string{"SELECT * FROM gen(n=300) LIMIT %d", "SELECT * FROM gen(n=-1) LIMIT %d", "SELECT i FROM M WHERE TRUE LIMIT %d", "SELECT i FROM M GROUP BY i LIMIT %d", "SELECT i FROM M ORDER BY i LIMIT %d",
		"SELECT * FROM foreach(row=M, query={ SELECT i FROM scope() LIMIT 1 }) LIMIT %d", "SELECT * FROM if(condition=1, then={ SELECT * FROM M }) LIMIT %d"} {
		if n > 300 && strings.Contains(q, "-1") {
			continue
		}
		expect(t, "limit", fmt.Sprintf(q, n), showRows(e.query(fmt.Sprintf(q, n))), sizeRange(0, min(n, 300), row, ";"))
	}
	settle(t, fmt.Sprint(n))
	t.Sig("%d", n)
}

// sizeScopes: n children of which every other, the first or the last ones
// are closed early; then n more.
func sizeScopes(t *T, n int) {
	for _, how := range []string{"none", "even", "odd", "first half", "second half", "all"} {
		w := newC17(t)
		w.trace = append(w.trace, fmt.Sprintf("%d children, %s closed early", n, how))
		mk := func(lo int) {
			for k := 0; k < n; k++ {
				c := w.copyOf(0)
				w.add(c, "plain")
				if k%3 == 0 {
					g := w.copyOf(c)
					w.add(g, "plain")
				}
				switch how {
				case "even", "odd":
					if (k%2 == 0) == (how == "even") {
						w.close(c)
					}
				case "all":
					w.close(c)
				}
			}
		}
		mk(0)
		kids := []int{}
		for i := range w.real {
			if w.parent[i] == 0 {
				kids = append(kids, i)
			}
		}
		for j, c := range kids {
			if how == "first half" && j < len(kids)/2 || how == "second half" && j >= len(kids)/2 {
				w.close(c)
			}
		}
		if !w.check(false) {
			return
		}
		mk(n)
		w.add(0, "plain")
		if !w.check(false) {
			return
		}
		w.close(0)
		if !w.check(true) {
			return
		}
	}
	t.Sig("%d", n)
}
