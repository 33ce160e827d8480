package main

import (
	"fmt"
	"strings"

	vfilter "REPO"
	"REPO/types"
)

// The pool of statements used by the checks on printing, reformatting,
// positions and parsing: a bounded grammar with every production.

var poolOps = []string{"+", "-", "*", "/", "=", "!=", "<>", "<", "<=", ">", ">=", "IN", "=~", "AND", "OR", "&&", "||"}

var poolAtoms = []string{
	"1", "2.5", "-2", "-2.5", "0x10", "-0x10", "1e3", "1e-7", "2E+2", ".5", "1e22", "123456789012", "0.1", "100.0", "3.0e0",
	"'s'", `"d"`, `"it's"`, `'a\'b'`, `"a\"b"`, `'''raw \n 'x' '''`, `"a\nb\t\\"`, `"\x41"`, "'\u00e9'", "''", "\"multi\nline\"", "'''two\nlines'''", "'''two  \n  lines '''", "'-- no'", "'// no'", "'/* no */'",
	"TRUE", "false", "NULL", "null",
	"a", "`b c`", "-a", "-`b c`", "nosuch", "D.k", "D.`k k`", "-D.k", "D.E.x", "L.k",
	"fx(v=1)", "fx(v=a, n='x')", "fx()", "-fx(v=a)", "dict(a=1, `b c`=2)", "dict()", "(1, 2)", "(a, )", "(1, (2, 3))", "((1, 2), 3)", "(a)", "((a))",
	"dict(x=[1, 2])", "dict(x=[])", "dict(x=[1,])", "dict(x=[a])", "dict(x=[[1]])", "dict(x=[(1, 2), 3])", "dict(x={ SELECT i FROM gen(n=2) })", "dict(x=(1, 2))",
	"fx(v={ SELECT i FROM gen(n=1) })", "F(x=1)", "-F(x=a)", "F(x=[1, 2])", "G()", "G(y=5)", "G(y=5, x=1)", "Q", "P(n=2)", "P(n=2).j", "`my f`(`my x`=3)", "if(condition=a, then=1, else=2)",
	"L[0]", "L[-1]", "L[1:2]", "L[:1]", "L[1:]", "L[:]", "L[a]", "L[(a - 1)]", "D['k']", "D['k k']", "D.E['x']", "L2[1].k", "'str'[1]", "'str'[0:2]", "L[0][0]", "LL[0][1]", "LL[0][1:]", "fx(v=L)[0]", "dict(k=1).k", "(1, 2)[1]", "D[(a + 1)]",
	"count()", "sum(item=a)",
}

var poolSmall = []string{"a", "3", "2.5", "'s'", "L", "fx(v=`b c`)"}

// poolExprs yields expressions.
func poolExprs(tier Tier, y func(string) bool) bool {
	for _, a := range poolAtoms {
		for _, f := range []string{"%s", "NOT %s", "(%s)", "(NOT %s)", "%s + 1", "2 * %s", "%s IN (1, 2)", "%s, 1", "fx(v=%s)", "(%s).k", "(%s)[0]", "dict(z=[%s])", "dict(z=[%s, 1])", "a AND %s", "NOT (%s)"} {
			if !y(fmt.Sprintf(f, a)) {
				return false
			}
		}
	}
	for _, op := range poolOps {
		for _, l := range poolSmall {
			for _, r := range poolSmall {
				for _, f := range []string{"%s %s %s", "(%s %s %s)"} {
					if !y(fmt.Sprintf(f, l, op, r)) {
						return false
					}
				}
			}
		}
	}
	for _, o1 := range poolOps {
		for _, o2 := range poolOps {
			for _, f := range []string{"a @ `b c` # c", "(a @ `b c`) # c", "a @ (`b c` # c)", "NOT a @ `b c` # c", "NOT (a @ `b c`) # c", "a @ 3 # 2.5", "a @ (3 # -2)", "a @ NOT c # 3", "(NOT a @ 3) # c",
				"fx(v=a @ `b c`) # c", "L[(a @ 3)] # c", "a @ (3, c) # 2", "(a @ (3 # c))", "-a @ -3 # -c", "dict(k=a @ c).k # 3"} {
				if !y(strings.Replace(strings.Replace(f, "@", o1, 1), "#", o2, 1)) {
					return false
				}
			}
		}
	}
	if tier == Thorough {
		for _, o1 := range poolOps {
			for _, o2 := range poolOps {
				for _, o3 := range poolOps {
					for _, f := range []string{"a @ 3 # c $ 2.5", "(a @ 3) # (c $ 2)", "a @ (3 # c) $ 2", "a @ (3 # c $ 2)", "a @ (3 # (c $ 2))", "((a @ 3) # c) $ 2", "a @ 3 # (c $ 2)", "NOT (a @ 3 # c) $ 2"} {
						s := strings.Replace(f, "@", o1, 1)
						s = strings.Replace(s, "#", o2, 1)
						if !y(strings.Replace(s, "$", o3, 1)) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// poolStmts yields texts of one or more statements; the last one is a query.
func poolStmts(tier Tier, y func(string) bool) bool {
	if !poolExprs(tier, func(x string) bool { return y("SELECT " + x + " AS r FROM vals()") }) {
		return false
	}
	// Every place an expression can stand in.
	for _, x := range append(append([]string{}, poolAtoms...), "a + 1", "a = 3 OR c", "NOT a", "a, c", "(a + 1) * 2", "a - (c - 1)") {
		for _, f := range []string{
			"SELECT %s FROM vals()", "SELECT a, %s FROM vals()", "SELECT *, %s FROM vals()", "SELECT %s, * FROM vals()", "SELECT %s AS `x y`, a FROM vals()",
			"SELECT a FROM vals() WHERE %s", "SELECT a FROM vals() WHERE %s AND a", "SELECT a, count() AS n FROM vals() GROUP BY %s",
			"SELECT a, count() AS n FROM vals() GROUP BY a, %s", "SELECT %s AS r FROM vals() ORDER BY r", "SELECT * FROM showargs(p=%s)", "SELECT * FROM showargs(p=[%s])", "SELECT * FROM showargs(p=[%s, 1])",
			"SELECT { SELECT %s AS z FROM scope() } AS s FROM vals()", "LET X = %s SELECT X FROM vals()", "LET X <= %s SELECT X FROM vals()", "LET X(p) = %s SELECT X(p=1) AS s FROM vals()",
			"LET X(p=%s) = p SELECT X() AS s, X(p=1) AS t FROM vals()", "LET X(p=[%s]) = p SELECT X() AS s, X(p=1) AS t FROM vals()", "LET X() = %s SELECT X() AS s FROM vals()", "EXPLAIN SELECT %s AS r FROM vals()",
			"LET X = SELECT %s AS r FROM vals() SELECT * FROM X", "SELECT * FROM foreach(row={ SELECT %s AS r FROM vals() }, query={ SELECT r FROM scope() })",
		} {
			if !y(fmt.Sprintf(f, x)) {
				return false
			}
		}
	}
	// All combinations of clauses.
	for _, cols := range []string{"*", "a", "a, c AS d", "*, a AS q", "a AS q, *", "a, { SELECT i FROM gen(n=2) } AS s", "{ SELECT i FROM gen(n=1) } AS s, a", "{ SELECT a AS z, c FROM scope() }", "a AS `my a`, fx(v=c) AS c"} {
		for _, from := range []string{"vals()", "Q", "P(n=3)", "R", "D.q", "foreach(row={ SELECT * FROM vals() }, query={ SELECT a, c, `b c` FROM scope() })", "if(condition=1, then={ SELECT * FROM vals() })", "chain(x={ SELECT * FROM vals() }, `y y`={ SELECT a FROM vals() LIMIT 1 })", "`my p`(`my n`=2)", "T", "flatten(query={ SELECT a, (1, 2) AS c FROM vals() })", "range(start=0, end=3)"} {
			for _, where := range []string{"", " WHERE a > 1", " WHERE a AND NOT c = 4 OR FALSE"} {
				for _, group := range []string{"", " GROUP BY a", " GROUP BY a, c", " GROUP  BY a - c"} {
					for _, order := range []string{"", " ORDER BY a", " ORDER BY a DESC", " ORDER BY `my a`", " order by c desc"} {
						for _, limit := range []string{"", " LIMIT 2", " LIMIT 0"} {
							if !y("SELECT " + cols + " FROM " + from + where + group + order + limit) {
								return false
							}
						}
					}
				}
			}
		}
	}
	// Definitions.
	for _, def := range []string{
		"LET X = 5", "LET X <= 5", "LET X = SELECT * FROM vals()", "LET X <= SELECT * FROM vals()", "LET X(p) = SELECT a + p AS s FROM vals()", "LET X(p, q) = p + q", "LET X(p=1) = p", "LET X(p=1, q) = dict(p=p, q=q)",
		"LET X(p, q=2, r=3) = dict(p=p, q=q, r=r)", "LET X(p=[]) = p", "LET X(p=[1, 2]) = p", "LET X(p={ SELECT i FROM gen(n=2) }) = SELECT * FROM p", "LET X() = 7", "LET X() = SELECT a FROM vals()",
		"LET `my X` = 5 LET X = `my X`", "LET X(`p q`) = `p q`", "LET X(`p q`=3) = `p q` + 1", "LET X(q=`b c`) = q", "LET X = p => p + 1", "LET X(p) = (p, q)", "LET X = dict(f={ SELECT * FROM vals() LIMIT 2 })",
		"LET X = SELECT a FROM vals() WHERE a ORDER BY a DESC LIMIT 1", "LET X(p) = SELECT * FROM vals() WHERE a = p", "LET X = -a", "LET X(a) = -a", "LET count = 3 LET X = count",
		"LET X(p=1 + 2 * 3, q=(1, 2)) = dict(p=p, q=q)", "let X = select a from vals()", "LET X = NULL", "LET X(p=NULL) = p", "LET X(p=fx(v=3)) = p", "LET X(p=TRUE, `q r`=FALSE, s) = dict(p=p, q=`q r`, s=s)",
	} {
		for _, use := range []string{"SELECT X FROM scope()", "SELECT X() AS s FROM scope()", "SELECT X(p=2) AS s FROM scope()", "SELECT X(p=2, q=3) AS s, X(q=3, p=2) AS t FROM scope()", "SELECT X(`p q`=4) AS s FROM scope()", "SELECT X(a=4) AS s FROM scope()", "SELECT * FROM X", "SELECT * FROM X()", "SELECT * FROM X(p=2)", "SELECT X.a AS z FROM scope()", "LET Y = X SELECT Y FROM scope()", "LET Z(r) = X(p=r) SELECT Z(r=2) AS z FROM scope()"} {
			if !y(def + " " + use) {
				return false
			}
		}
	}
	// Long statements, whose layout needs several lines.
	long := "a_rather_long_name_" + strings.Repeat("x", 30)
	for _, s := range []string{
		"SELECT fx(v=" + long + ") AS " + long + ", fx(v=" + long + " + " + long + ", n='" + long + "') AS b2, " + long + ".k AS c3 FROM vals()",
		"SELECT * FROM showargs(" + long + "1=1, " + long + "2=" + long + ", " + long + "3=[" + long + ", 2])",
		"SELECT * FROM foreach(row={ SELECT a AS " + long + " FROM vals() WHERE a AND " + long + " = 1 }, query={ SELECT " + long + ", fx(v=" + long + ", n='" + long + "') AS z FROM foreach(row={ SELECT * FROM vals() }, query={ SELECT a + " + long + " AS " + long + " FROM scope() }) })",
		"LET " + long + "(" + long + "p, " + long + "q='" + long + "') = SELECT " + long + "p + " + long + "q AS " + long + "r FROM vals() WHERE " + long + "p = 3 OR " + long + "p != 4 AND " + long + "q GROUP BY a ORDER BY a LIMIT 5 SELECT * FROM " + long + "(" + long + "p='y')",
		"SELECT a FROM vals() WHERE a = 1 AND a = 1 AND a = 1 AND a = 1 AND a = 1 AND a = 1 AND a = 1 AND a = 1 AND a = 1 AND a = 1 OR a = 2 OR a = 2 OR a = 2 OR a = 2 OR a = 2 OR a = 2 OR a = 2 OR a = 2",
		"SELECT ('" + long + "', '" + long + "', '" + long + "', '" + long + "') AS l, '''" + long + "\n" + long + "\n  " + long + "''' AS r, \"" + long + "\n   x  \n\" AS s FROM vals()",
		"SELECT dict(a=dict(b=dict(c=dict(d=dict(e='" + long + "', f='" + long + "'))), g='" + long + "'), h=[1, '" + long + "', ('" + long + "', 2)]) AS d FROM vals()",
		"SELECT { SELECT " + long + ", a FROM vals() WHERE '" + long + "' = '" + long + "' } AS s, { SELECT i FROM gen(n=2) WHERE i OR '" + long + "' } AS t, a FROM vals()",
		"LET X <= if(condition=a, then=fx(v=D.k - " + long + " + a, n='" + long + "'), else=fx(v=now - " + long + ")) SELECT X FROM scope()",
		"SELECT a + fx(v=a, n='" + long + "') * (fx(v=c, n='" + long + "') - 2) / fx(v=3, n='" + long + "') - (a - (c - fx(v=1, n='" + long + "'))) AS z FROM vals()",
		"SELECT -fx(v=a, n='" + long + "') AS z, NOT fx(v=a, n='" + long + "') AS y, fx(v=LL, n='" + long + "')[0][1:] AS x, fx(v=L, n='" + long + "')[(a - fx(v=1, n='" + long + "'))] AS w FROM vals() GROUP BY a, '" + long + "', '" + long + "', '" + long + "' ORDER BY z DESC LIMIT 10",
		"LET X(p={ SELECT i AS " + long + " FROM gen(n=2) WHERE '" + long + "' AND '" + long + "' }, q=['" + long + "', '" + long + "', '" + long + "']) = dict(p=p, q=q) SELECT X() AS x FROM scope()",
		"EXPLAIN SELECT '" + long + "' AS a, '" + long + "' AS b, '" + long + "' AS c FROM vals()",
	} {
		if !y(s) {
			return false
		}
	}
	return true
}

// poolEnv is the scope the statements of the pool run in.
func poolEnv(t *T) *Env {
	e := newEnv(t)
	e.set("D", D("k", int64(7), "k k", int64(8), "E", D("x", int64(9))))
	e.set("L", []types.Any{int64(10), int64(20), int64(30)})
	e.set("L2", []types.Any{D("k", int64(1)), D("k", int64(2))})
	e.set("LL", []types.Any{[]types.Any{int64(1), int64(2), int64(3)}})
	e.set("c", int64(4)).set("a", int64(2)).set("b c", int64(5))
	e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "vals", Function: listRows(func() []types.Row {
		return []types.Row{
			D("a", int64(2), "b c", int64(5), "c", int64(4)),
			D("a", int64(0), "b c", 1.5, "c", "s"),
			D("a", "s", "b c", types.Null{}, "c", []types.Any{int64(3)}),
			D("a", int64(3), "b c", int64(3), "c", int64(0)),
		}
	})})
	e.query("LET F(x) = (x, x) LET G(x=1, y=2) = dict(x=x, y=y) LET Q = SELECT a, c FROM vals() LET P(n) = SELECT i + n AS j, i AS a, 1 AS c FROM gen(n=n) " +
		"LET `my f`(`my x`) = `my x` * 2 LET `my p`(`my n`) = SELECT i AS a FROM gen(n=`my n`) LET R <= SELECT a, c FROM vals() LET T <= SELECT * FROM vals() " +
		"LET dq <= SELECT a, c FROM vals()")
	dq, _ := e.scope.Resolve("dq")
	e.set("D", D("k", int64(7), "k k", int64(8), "E", D("x", int64(9)), "q", dq))
	e.takeTrace()
	e.lmu.Lock()
	e.logs = nil
	e.lmu.Unlock()
	return e
}

// meaning evaluates statements and describes everything observable about
// them.
func meaning(t *T, text string) string {
	e := poolEnv(t)
	stmts := mustParse(t, text)
	var sb strings.Builder
	for _, s := range stmts {
		for _, r := range collect(bg, e.scope, s) {
			sb.WriteString(show(r))
			sb.WriteString(";")
		}
		sb.WriteString("|")
	}
	for _, n := range strings.Fields(e.takeTrace()) {
		// When generators are cancelled is not part of the meaning.
		if !strings.HasPrefix(n, "open-") && !strings.HasPrefix(n, "cancelled-") {
			sb.WriteString(n + " ")
		}
	}
	sb.WriteString("|")
	for _, l := range e.errorLogs() {
		if i := strings.Index(l, "Current Scope"); i > 0 {
			l = l[:i]
		}
		// EXPLAIN prints positions and times.
		if strings.Contains(l, "EXPLAIN") {
			l = "EXPLAIN"
		}
		sb.WriteString(l)
		sb.WriteString("|")
	}
	return sb.String()
}
