package main

import (
	"fmt"
	"strings"

	vfilter "REPO"
)

// batches groups items.
func batches[X any](size int, gen func(y func(X) bool) bool, f func([]X) bool) bool {
	var b []X
	ok := gen(func(x X) bool {
		b = append(b, x)
		if len(b) < size {
			return true
		}
		c := b
		b = nil
		return f(c)
	})
	return ok && (len(b) == 0 || f(b))
}

func poolCases(tier Tier, gen func(Tier, func(string) bool) bool, y func(Case) bool, check func(t *T, text string)) bool {
	n := 0
	return batches(8, func(y func(string) bool) bool { return gen(tier, y) }, func(b []string) bool {
		n++
		return y(Case{fmt.Sprintf("%d: %s ..", n, trunc(b[0], 60)), func(t *T) {
			for _, text := range b {
				check(t, text)
			}
		}})
	})
}

// c10Check prints a statement, reads it again and compares the meaning.
func c10Check(t *T, text string) {
	stmts, err := vfilter.MultiParse(text)
	if err != nil {
		t.Sig("invalid")
		return
	}
	scope := vfilter.NewScope()
	printed := ""
	for _, s := range stmts {
		one := vfilter.FormatToString(scope, s)
		again, err := vfilter.MultiParse(one)
		if err != nil || len(again) != 1 {
			t.Fail("reparse", "%s prints as %s: %v (%d statements)", text, one, err, len(again))
			return
		}
		two := vfilter.FormatToString(scope, again[0])
		expect(t, "stable", "printing "+one+" again", two, one)
		if again[0].Type() != s.Type() {
			t.Fail("type", "%s is a %s, prints as a %s", text, s.Type(), again[0].Type())
		}
		printed += one + "\n"
	}
	a, b := meaning(t, text), meaning(t, printed)
	expect(t, "meaning", text+"\n   prints as "+printed, b, a)
	t.Sig("%s", trunc(a, 200))
}

// c10Lambda prints a lambda and reads it again.
func c10Lambda(t *T, body string) {
	for _, params := range []string{"a", "a, c", "a, `b c`, c"} {
		text := params + " => " + body
		l, err := vfilter.ParseLambda(text)
		if err != nil {
			t.Sig("invalid")
			continue
		}
		e := poolEnv(t)
		printed := vfilter.FormatToString(e.scope, l)
		l2, err := vfilter.ParseLambda(printed)
		if err != nil {
			t.Fail("lambda-reparse", "%s prints as %s: %v", text, printed, err)
			return
		}
		expect(t, "lambda-stable", "printing "+printed+" again", vfilter.FormatToString(e.scope, l2), printed)
		args := []vfilter.Any{int64(3), 1.5, "s"}[:len(l.GetParameters())]
		got := func(l *vfilter.Lambda) string {
			v := l.Reduce(bg, e.scope, args)
			return show(v) + strings.NewReplacer("open-", "", "cancelled-", "", " ", "").Replace(e.takeTrace())
		}
		expect(t, "lambda-meaning", text+" prints as "+printed, got(l2), got(l))
		t.Sig("ok")
	}
}

func init() {
	register(&Prop{
		ID:    "C10",
		Level: "model_checking",
		Rule:  "the printed form of each statement parses to one statement, prints the same again and gives the same rows, columns, side effects and messages",
		Suites: []Suite{
			{
				Name: "numbers", NoRace: true,
				Bound: "all numbers next to a power of two, as literals, limits, indexes, defaults, fractions, elements and arguments",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, n := range bigNumbers() {
						if !y(Case{n, func(t *T) { c10Numbers(t, n) }}) {
							return
						}
					}
				}),
			},
			{
				Name:  "statements",
				Bound: "all statements of the bounded grammar in pool.go (expressions to depth 2, thorough 3; all clause combinations; all forms of LET)",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(tier, poolStmts, y, c10Check)
				}),
			},
			{
				Name:  "lambdas",
				Bound: "all expressions of the pool as the body of a lambda",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(Quick, poolExprs, y, c10Lambda)
				}),
			},
		},
	})
}
