package main

import (
	"fmt"
	"math/big"
	"strings"

	vfilter "REPO"
	"REPO/reformat"
)

// signif gives the tokens of a text without layout: comments apart, keywords
// in one case and numbers by value.
func signif(text string) (toks string, comments string, err error) {
	ts, err := vfilter.Tokenize(text)
	if err != nil {
		return "", "", err
	}
	var a, c []string
	for _, t := range ts {
		v := t.Value
		switch t.Type {
		case "Comment", "VQLComment", "MLineComment":
			c = append(c, strings.TrimSpace(v))
			continue
		case "Ident", "SymbolIdent", "String", "MultilineString", "Operators":
		case "Number":
			v = "#" + numKey(v)
		default:
			v = strings.ToUpper(strings.Join(strings.Fields(v), " "))
		}
		if n := len(a); v == "," && n > 1 && a[n-1] == "*" && a[n-2] == "SELECT" {
			// Optional.
			continue
		}
		a = append(a, v)
	}
	return strings.Join(a, "\x00"), strings.Join(c, "\x00"), nil
}

func numKey(v string) string {
	neg := strings.HasPrefix(v, "-")
	d := strings.TrimPrefix(v, "-")
	var r *big.Rat
	if strings.HasPrefix(d, "0x") {
		z, _ := new(big.Int).SetString(d[2:], 16)
		r = new(big.Rat).SetInt(z)
	} else {
		r, _ = new(big.Rat).SetString(d)
	}
	f, _ := r.Float64()
	isf := "i"
	if strings.ContainsAny(d, ".eE") && !strings.HasPrefix(d, "0x") || !r.IsInt() || !r.Num().IsInt64() {
		isf = "f"
	}
	if neg {
		f = -f
	}
	if isf == "i" {
		return fmt.Sprint("i", neg, r.Num())
	}
	return fmt.Sprint("f", f)
}

var c11Options = []vfilter.FormatOptions{
	vfilter.DefaultFormatOptions,
	{IndentWidthThreshold: 5, MaxWidthThreshold: 10, BreakLines: true},
	{IndentWidthThreshold: 20, MaxWidthThreshold: 40, BreakLines: true},
	{IndentWidthThreshold: 1000, MaxWidthThreshold: 1000, BreakLines: true},
	vfilter.ToStringOptions,
}

func c11Check(t *T, text string, opts []vfilter.FormatOptions) {
	scope := vfilter.NewScope()
	_, perr := vfilter.MultiParseWithComments(text)
	for i, o := range opts {
		r, err := reformat.ReFormatVQL(scope, text, o)
		if (err == nil) != (perr == nil) {
			t.Fail("error", "reformatting %s: %v, parsing it: %v", text, err, perr)
			return
		}
		if err != nil {
			t.Sig("invalid")
			return
		}
		a, ca, err := signif(text)
		if err != nil {
			t.Fail("tokens", "%s: %v", text, err)
			return
		}
		b, cb, err := signif(r)
		if err != nil {
			t.Fail("reparse", "%s\n   reformats to %s: %v", text, r, err)
			return
		}
		what := fmt.Sprintf("%s\n   reformats (%d) to\n%s\n", text, i, r)
		show := func(s string) string { return strings.ReplaceAll(s, "\x00", " ") }
		expect(t, fmt.Sprint("comments", i), what, show(cb), show(ca))
		if !expect(t, fmt.Sprint("tokens", i), what, show(b), show(a)) {
			continue
		}
		again, err := reformat.ReFormatVQL(scope, r, o)
		if err != nil {
			t.Fail(fmt.Sprint("again", i), "%s cannot be read again: %v", what, err)
			continue
		}
		if o.BreakLines {
			expect(t, fmt.Sprint("stable", i), what, again, r)
		}
	}
	t.Sig("ok")
}

// c11Comments are the statements comments are put into.
var c11Comments = []string{
	"SELECT * FROM vals()",
	"SELECT a, c AS d, fx(v=a, n='x') FROM vals() WHERE a = 2 AND NOT c OR FALSE GROUP BY a, c ORDER BY a DESC LIMIT 3",
	"LET X = 5 SELECT X + a * 2 - (c / 3) AS s FROM vals()",
	"LET X(p, q=2) = SELECT p, q FROM scope() SELECT * FROM X(p=1)",
	"SELECT * FROM foreach(row={ SELECT a FROM vals() }, query={ SELECT a + 1 AS z FROM scope() })",
	"SELECT *, { SELECT i FROM gen(n=2) } AS s, dict(a=[1, 2], b=(1, 2, 3))['a'][0] FROM vals()",
	"LET Y <= SELECT a FROM vals() WHERE a IN (1, 2) LIMIT 1 LET Z = Y.a[0:1] SELECT Z FROM scope()",
	"EXPLAIN SELECT a FROM Artifact.Foo.Bar(x='''raw''')",
	"LET L <= (253, 7, 8, ) SELECT L FROM scope()",
	"SELECT if(condition=a AND c, then=-a, else={ SELECT * FROM scope() }) AS r, a IN (3, ) FROM vals()",
}

var c11Marks = []string{"-- one\n", "// two\n", "/* three */", "/* four\n   lines */", "-- a\n-- b\n", "/* a */ // b\n"}

// withComments yields the text with comments at the gaps listed.
func withComment(toks []vfilter.Token, at map[int]string) string {
	var sb strings.Builder
	for i := 0; i <= len(toks); i++ {
		if c, ok := at[i]; ok {
			sb.WriteString(" " + c + " ")
		}
		if i < len(toks) {
			sb.WriteString(toks[i].Value + " ")
		}
	}
	return sb.String()
}

func init() {
	register(&Prop{
		ID:    "C11",
		Level: "model_checking",
		Rule:  "the reformatted text has the same tokens and comments in the same order, and reformatting it again gives it back",
		Suites: []Suite{
			{
				Name:  "layout",
				Bound: "all statements of the pool, 5 layouts",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(tier, poolStmts, y, func(t *T, text string) { c11Check(t, text, c11Options) })
				}),
			},
			{
				Name:  "one comment",
				Bound: "10 texts, 6 kinds of comments at every gap between tokens, 5 layouts",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, s := range c11Comments {
						toks, err := vfilter.Tokenize(s)
						if err != nil {
							panic(err)
						}
						for i := 0; i <= len(toks); i++ {
							if !y(Case{fmt.Sprintf("%s @%d", s, i), func(t *T) {
								for _, c := range c11Marks {
									c11Check(t, withComment(toks, map[int]string{i: c}), c11Options)
								}
							}}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "two comments",
				Bound: "10 texts, pairs of comments at all pairs of gaps where single comments are allowed",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, s := range c11Comments {
						toks, _ := vfilter.Tokenize(s)
						var ok []int
						for i := 0; i <= len(toks); i++ {
							if _, err := vfilter.MultiParseWithComments(withComment(toks, map[int]string{i: c11Marks[0]})); err == nil {
								ok = append(ok, i)
							}
						}
						for _, i := range ok {
							for _, j := range ok {
								if i >= j {
									continue
								}
								if !y(Case{fmt.Sprintf("%s @%d,%d", s, i, j), func(t *T) {
									for _, c := range c11Marks[:4] {
										for _, d := range c11Marks[:4] {
											c11Check(t, withComment(toks, map[int]string{i: c, j: d}), c11Options[:3])
										}
									}
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "malformed",
				Bound: "10 texts with each token left out, doubled, swapped with the next one or replaced by each of 19 tokens",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, s := range c11Comments {
						toks, _ := vfilter.Tokenize(s)
						for i := range toks {
							if !y(Case{fmt.Sprintf("%s @%d", s, i), func(t *T) {
								with := func(mid ...string) {
									text := joinToks(toks[:i], " ") + " " + strings.Join(mid, " ") + " " + joinToks(toks[i+1:], " ")
									c11Check(t, text, c11Options[:2])
								}
								v := toks[i].Value
								with()
								with(v, v)
								for _, w := range c13Tokens {
									with(w)
									with(v, w)
								}
								if i+1 < len(toks) {
									text := joinToks(toks[:i], " ") + " " + toks[i+1].Value + " " + v + " " + joinToks(toks[i+2:], " ")
									c11Check(t, text, c11Options[:2])
								}
							}}) {
								return
							}
						}
					}
				}),
			},
		},
	})
}
