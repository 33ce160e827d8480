package main

import (
	"fmt"
	"strings"
	"unicode"

	vfilter "REPO"
	"REPO/reformat"
)

// parsed is what the entry points make of a text: the printed form of each
// statement or an error.
type parsed struct {
	stmts []string
	raw   []string
	err   bool
}

func (p parsed) String() string {
	if p.err {
		return "error"
	}
	return strings.Join(p.stmts, " ; ")
}

func printedStmts(stmts []*vfilter.VQL, err error) parsed {
	if err != nil {
		return parsed{err: true}
	}
	s := vfilter.NewScope()
	var p parsed
	for _, v := range stmts {
		raw := vfilter.FormatToString(s, v)
		toks, _, err := signif(raw)
		p.raw = append(p.raw, raw)
		p.stmts = append(p.stmts, fmt.Sprint(v.Type(), " ", strings.ReplaceAll(toks, "\x00", " "), " ", err))
	}
	return p
}

func parseOne(text string) parsed {
	v, err := vfilter.Parse(text)
	return printedStmts([]*vfilter.VQL{v}, err)
}

func parseMulti(text string) parsed { return printedStmts(vfilter.MultiParse(text)) }

func parseComments(text string) parsed {
	return printedStmts(vfilter.MultiParseWithComments(text))
}

// tokenTexts are the values of the tokens of a text, comments apart.
func tokenTexts(text string) ([]string, error) {
	toks, err := vfilter.Tokenize(text)
	var r []string
	for _, t := range toks {
		if !strings.HasSuffix(t.Type, "Comment") {
			r = append(r, t.Value)
		}
	}
	return r, err
}

// c13Agree checks that the entry points agree on a text without comments and
// that they never panic.
func c13Agree(t *T, text string) {
	m := parseMulti(text)
	o := parseOne(text)
	c := parseComments(text)
	l, lerr := vfilter.ParseLambda(text)
	if lerr == nil {
		_ = vfilter.FormatToString(vfilter.NewScope(), l)
	}
	_, terr := vfilter.Tokenize(text)
	if terr != nil && !m.err {
		t.Fail("tokens", "%q parses, tokenising it: %v", text, terr)
	}
	expect(t, "entry", fmt.Sprintf("parsing %q with comments", text), c.String(), m.String())
	one := m
	if len(m.stmts) != 1 {
		one = parsed{err: true}
	}
	expect(t, "single", fmt.Sprintf("parsing %q as one statement", text), o.String(), one.String())
	r, rerr := reformat.ReFormatVQL(vfilter.NewScope(), text, vfilter.DefaultFormatOptions)
	if (rerr != nil) != c.err {
		t.Fail("reformat", "reformatting %q: %v, parsing it: %v", text, rerr, c)
	}
	if m.err {
		t.Sig("invalid")
		return
	}
	t.Sig("%d", len(m.stmts))
	expect(t, "reformatted", fmt.Sprintf("%q reformatted as %q", text, r), parseMulti(r).String(), m.String())
	for i, s := range m.stmts {
		expect(t, "alone", fmt.Sprintf("statement %d of %q alone", i, text), parseOne(m.raw[i]).String(), s)
	}
}

var c13Tokens = []string{"SELECT", "*", "a", ",", "FROM", "(", ")", "=", "LET", "1", "{", "}", "[", "]", "'s'", "NOT", "-", ":", "."}

var c13Prefixes = []string{"", "SELECT ", "SELECT a FROM x(", "SELECT a FROM x WHERE ", "LET X", "LET X = ", "SELECT a FROM x GROUP BY a ", "SELECT L[", "SELECT f(a="}

var c13Suffixes = []string{"", " FROM x"}

var c13Chars = []string{"'", "\"", "`", "\\", "-", "/", "*", "0", "x", ".", " ", "\n", "(", "é", "\xff", "\x00", "=", ",", "e"}

var c13Stmts = []string{
	"SELECT * FROM vals()", "SELECT a, c AS d FROM vals() WHERE a GROUP BY a ORDER BY a DESC LIMIT 3", "LET X = 5", "LET X <= SELECT * FROM vals()", "LET X(p, q=2) = p + q", "EXPLAIN SELECT a FROM Q",
	"SELECT { SELECT * FROM Q } AS s FROM scope()", "LET X = a", "LET L = (1, )", "LET L = L[0]", "SELECT a FROM Q WHERE NOT a", "SELECT a, -b FROM Q ORDER BY a", "LET X() = -a",
}

var c13Texts = append(append([]string{}, c11Comments...),
	"SELECT `a b` AS `c d`, -x FROM `my p`(`n n`=1) ORDER BY `c d`",
	"SELECT a FROM p WHERE a AND b OR NOT c IN d AND e =~ 'x' && f || g GROUP BY a ORDER BY a DESC LIMIT 10",
	"LET X(p=[1, 2], q={ SELECT * FROM scope() }) <= TRUE SELECT NULL, FALSE, 0x10, -1.5e3 FROM X",
	"SELECT L[1], L[1:2], L[:2], L[1:], L[:], D.a.b['c'] FROM Q",
	"SELECT a != b, a <> b, a <= b, a >= b, a < b, a > b, a = b, (a, b), \"x\\n\" FROM Q",
)

// c13Places are texts with a # at the places where a comment is kept.
var c13Places = []string{
	"# SELECT # * FROM vals ( ) #",
	"# SELECT # a , # c AS d , # fx ( # v = # a , # n = # 'x' ) FROM vals ( ) WHERE # a = # 2 AND # NOT # c OR # FALSE GROUP BY # a # , # c ORDER BY a DESC LIMIT 3 #",
	"# LET X = # 5 # SELECT # X + # a * # 2 - # ( # c / # 3 ) AS s FROM vals ( ) #",
	"# LET X ( p , # q = # 2 ) = # SELECT # p , # q FROM scope ( ) # SELECT # * FROM X ( # p = # 1 ) #",
	"# SELECT # * FROM foreach ( # row = { # SELECT # a FROM vals ( ) } , # query = { # SELECT # a + # 1 AS z FROM scope ( ) } ) #",
	"# SELECT # * , # { # SELECT # i FROM gen ( # n = # 2 ) } AS s , # dict ( # a = [ # 1 # , # 2 ] , # b = # ( # 1 # , # 2 # , # 3 ) ) [ # 'a' ] [ # 0 ] FROM vals ( ) #",
	"# LET L <= # ( # 253 # , # 7 # , # 8 # , # ) # SELECT # L FROM scope ( ) #",
}

func swapCase(s string) string {
	var b strings.Builder
	for i, c := range s {
		if i%2 == 0 {
			b.WriteRune(unicode.ToLower(c))
		} else {
			b.WriteRune(unicode.ToUpper(c))
		}
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID:    "C13",
		Level: "model_checking",
		Rule:  "no text makes a parser panic or run away; the entry points accept the same texts and find the same statements; comments, blanks and keyword case are neutral",
		Suites: []Suite{
			{
				Name:  "token sequences",
				Bound: "all sequences of up to 3 (thorough 4) of 19 tokens after each of 9 beginnings, with and without a FROM clause after them",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 3
					if tier == Thorough {
						n = 4
					}
					for _, p := range c13Prefixes {
						for _, suf := range c13Suffixes {
							if !batches(200, func(y func(string) bool) bool {
								return seqs(len(c13Tokens), 0, n, func(s []int) bool {
									var w []string
									for _, i := range s {
										w = append(w, c13Tokens[i])
									}
									return y(p + strings.Join(w, " ") + suf)
								})
							}, func(b []string) bool {
								return y(Case{b[0] + " ..", func(t *T) {
									for _, text := range b {
										c13Agree(t, text)
									}
								}})
							}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "characters",
				Bound: "all texts of up to 3 (thorough 5) of 19 characters, alone and inside a query",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 3
					if tier == Thorough {
						n = 5
					}
					batches(300, func(y func(string) bool) bool {
						return seqs(len(c13Chars), 0, n, func(s []int) bool {
							w := ""
							for _, i := range s {
								w += c13Chars[i]
							}
							return y(w)
						})
					}, func(b []string) bool {
						return y(Case{fmt.Sprintf("%q ..", b[0]), func(t *T) {
							for _, text := range b {
								for _, x := range []string{text, "SELECT a " + text + " FROM x()"} {
									if strings.Contains(text, "--") || strings.Contains(text, "//") || strings.Contains(text, "/*") {
										parseOne(x)
										parseMulti(x)
										parseComments(x)
										_, _ = vfilter.Tokenize(x)
										_, _ = reformat.ReFormatVQL(vfilter.NewScope(), x, vfilter.DefaultFormatOptions)
										continue
									}
									c13Agree(t, x)
								}
							}
						}})
					})
				}),
			},
			{
				Name:  "statements",
				Bound: "all sequences of up to 3 of 13 statements with each kind of blank between them",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					batches(50, func(y func([]int) bool) bool { return seqs(len(c13Stmts), 1, 3, y) }, func(b [][]int) bool {
						return y(Case{fmt.Sprintf("%v ..", b[0]), func(t *T) {
							for _, s := range b {
								var want, texts []string
								for _, i := range s {
									p := parseOne(c13Stmts[i])
									if p.err {
										t.Fail("pool", "%s does not parse", c13Stmts[i])
									}
									want = append(want, p.stmts...)
									texts = append(texts, c13Stmts[i])
								}
								for _, sep := range []string{" ", "\n", "\r\n\t", " -- c\n", " /* x */ ", "\n// SELECT\n"} {
									text := strings.Join(texts, sep)
									expect(t, "split", text, parseMulti(text).String(), parsed{stmts: want}.String())
									c := parseComments(text)
									expect(t, "split-comments", text+" with comments", c.String(), parsed{stmts: want}.String())
								}
							}
						}})
					})
				}),
			},
			{
				Name:  "comments and blanks",
				Bound: "15 texts, each of 6 comments and 5 blanks at each gap between tokens and at all of them; all keywords in 3 cases",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, text := range c13Texts {
						text := text
						if !y(Case{text, func(t *T) { c13Neutral(t, text) }}) {
							return
						}
					}
				}),
			},
			{
				Name:  "kept comments",
				Bound: "7 texts with one of 4 comments at each place where one may stand, or at all of them",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, text := range c13Places {
						parts := strings.Split(text, "#")
						plain := strings.Join(parts, "")
						for i := 0; i < len(parts); i++ {
							if !y(Case{fmt.Sprintf("%s @%d", plain, i), func(t *T) {
								want := parseMulti(plain)
								for _, c := range c11Marks[:4] {
									p := parts[0]
									for j, x := range parts[1:] {
										if j == i || i == len(parts)-1 {
											p += c
										}
										p += x
									}
									if want.err {
										t.Fail("pool", "%s does not parse", plain)
									}
									expect(t, "kept", "comments in "+p, parseComments(p).String(), want.String())
								}
							}}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:  "comments and blanks in the pool",
				Bound: "all statements of the pool with a comment, a blank or nothing between all tokens, keywords in 2 cases",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(tier, poolStmts, y, func(t *T, text string) {
						want := parseMulti(text)
						toks, err := vfilter.Tokenize(text)
						if err != nil || want.err {
							t.Sig("invalid")
							return
						}
						c13Agree(t, text)
						for _, m := range []string{" ", " /*x*/", " --\n"} {
							p := joinToks(toks, m)
							expect(t, "neutral", p, parseMulti(p).String(), want.String())
						}
						p := c13Case(toks, strings.ToLower)
						expect(t, "case", p, parseMulti(p).String(), want.String())
						p = c13Case(toks, swapCase)
						expect(t, "case", p, parseMulti(p).String(), want.String())
						t.Sig("ok")
					})
				}),
			},
		},
	})
}

func joinToks(toks []vfilter.Token, sep string) string {
	var w []string
	for _, t := range toks {
		w = append(w, t.Value)
	}
	return strings.Join(w, sep)
}

var c13Keywords = map[string]bool{"SELECT": true, "FROM": true, "WHERE": true, "AND": true, "OR": true, "NOT": true, "IN": true, "AS": true, "LIMIT": true, "ORDER BY": true, "GROUP BY": true, "DESC": true, "LET": true, "EXPLAIN": true, "TRUE": true, "FALSE": true, "NULL": true}

// c13Case writes the keywords of a text in another case.
func c13Case(toks []vfilter.Token, f func(string) string) string {
	var w []string
	for _, t := range toks {
		v := t.Value
		if c13Keywords[strings.ToUpper(strings.Join(strings.Fields(v), " "))] {
			v = f(v)
		}
		w = append(w, v)
	}
	return strings.Join(w, " ")
}

func c13Neutral(t *T, text string) {
	want := parseMulti(text)
	if want.err {
		t.Fail("pool", "%s does not parse", text)
		return
	}
	same := func(p string) {
		expect(t, "neutral", p, parseMulti(p).String(), want.String())
		if len(want.stmts) == 1 {
			expect(t, "neutral", p+" alone", parseOne(p).String(), want.String())
		}
		// Comments are not accepted everywhere, but never mean anything.
		if c, err := vfilter.MultiParseWithComments(p); err == nil {
			s := ""
			for _, v := range c {
				s += vfilter.FormatToString(vfilter.NewScope(), v) + "\n"
			}
			expect(t, "neutral", p+" with comments", parseMulti(s).String(), want.String())
		}
	}
	toks, err := vfilter.Tokenize(text)
	if err != nil {
		t.Fail("pool", "%s: %v", text, err)
		return
	}
	for _, c := range append(append([]string{}, c11Marks...), " ", "\n", "\t", "\r\n", "\n\n  \n") {
		same(joinToks(toks, " "+c))
		for i := 0; i <= len(toks); i++ {
			same(withComment(toks, map[int]string{i: c}))
		}
	}
	for _, f := range []func(string) string{strings.ToLower, swapCase, strings.ToUpper} {
		same(c13Case(toks, f))
		for i := range toks {
			one := append([]vfilter.Token{}, toks...)
			if !c13Keywords[strings.ToUpper(one[i].Value)] {
				continue
			}
			one[i].Value = f(one[i].Value)
			same(joinToks(one, " "))
		}
	}
	// Leave out blanks that do not separate tokens.
	for i := 1; i < len(toks); i++ {
		p := joinToks(toks[:i], " ") + joinToks(toks[i:], " ")
		if w, err := tokenTexts(p); err == nil && strings.Join(w, "\x00") == joinToks(toks, "\x00") {
			same(p)
		}
	}
	t.Sig("ok")
}
