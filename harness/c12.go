package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	vfilter "REPO"
	"github.com/alecthomas/participle/v2/lexer"
)

// posAt is the position of a byte offset.
func posAt(text string, off int) lexer.Position {
	before := text[:off]
	nl := strings.LastIndex(before, "\n")
	return lexer.Position{Offset: off, Line: 1 + strings.Count(before, "\n"), Column: 1 + utf8.RuneCountInString(before[nl+1:])}
}

// c12Tokens checks the token stream of a text.
func c12Tokens(t *T, text string) {
	toks, err := vfilter.Tokenize(text)
	if err != nil {
		t.Sig("invalid")
		return
	}
	at := 0
	for i, tok := range toks {
		what := fmt.Sprintf("token %d (%q) of %q", i, tok.Value, text)
		s, e := tok.Pos.Offset, tok.EndPos.Offset
		if s < at || e <= s || e > len(text) {
			t.Fail("range", "%s: %d to %d after %d", what, s, e, at)
			return
		}
		if gap := text[at:s]; strings.TrimSpace(gap) != "" {
			t.Fail("gap", "%s: %q is left out", what, gap)
		}
		if text[s:e] != tok.Value {
			t.Fail("value", "%s: at %q", what, text[s:e])
		}
		if p := posAt(text, s); p != tok.Pos {
			t.Fail("pos", "%s: starts at %v, reported %v", what, p, tok.Pos)
		}
		if p := posAt(text, e); p != tok.EndPos {
			t.Fail("end", "%s: ends at %v, reported %v", what, p, tok.EndPos)
		}
		if one, err := vfilter.Tokenize(tok.Value); err != nil || len(one) != 1 || one[0].Type != tok.Type {
			t.Fail("type", "%s is a %s, alone: %v %v", what, tok.Type, one, err)
		}
		at = e
	}
	if gap := text[at:]; strings.TrimSpace(gap) != "" {
		t.Fail("gap", "%q: %q is left out", text, gap)
	}
	t.Sig("%d", len(toks))
}

// mark is a range of tokens of a text: a call, a definition, ... In the
// markup it is written as <K ... >.
type mark struct {
	kind     byte
	from, to int
	kids     []*mark
	toks     []string
}

// name is what is written before the first parenthesis or = sign.
func (m *mark) name(toks []string) string {
	s := ""
	for _, t := range toks[m.from:m.to] {
		if t == "(" || t == "=" {
			break
		}
		s += t
	}
	return s
}

// parseMarkup reads tokens and marks. Kinds: F function call, P plugin call,
// S symbol, A argument, D definition (its name follows LET), L parameter,
// M parameter with a default, Q query, C column, X expression of a LET.
func parseMarkup(s string) ([]string, []*mark) {
	var toks []string
	root := &mark{}
	stack := []*mark{root}
	for _, w := range strings.Fields(s) {
		switch {
		case len(w) == 2 && w[0] == '<' && w[1] >= 'A' && w[1] <= 'Z':
			m := &mark{kind: w[1], from: len(toks)}
			top := stack[len(stack)-1]
			top.kids = append(top.kids, m)
			stack = append(stack, m)
		case w == ">>":
			stack[len(stack)-1].to = len(toks)
			stack = stack[:len(stack)-1]
		default:
			// An underscore stands for a blank and ^ for a line break inside a token.
			toks = append(toks, strings.NewReplacer("_", " ", "^", "\n").Replace(w))
		}
	}
	if len(stack) != 1 {
		panic("markup: " + s)
	}
	return toks, root.kids
}

func unq(s string) string { return strings.Trim(s, "`") }

// c12Sites gives the call sites, definitions and outlines expected, as text.
func c12Sites(toks []string, m *mark, rng func(m *mark) string) (sites, defs []string) {
	args := func(m *mark, kinds string) string {
		s := ""
		for _, k := range m.kids {
			if strings.IndexByte(kinds, k.kind) >= 0 {
				s += fmt.Sprintf(" %s@%s", unq(k.name(toks)), rng(k))
			}
		}
		return s
	}
	kinds := map[byte]string{'F': "function", 'P': "plugin", 'S': "symbol"}
	if k, ok := kinds[m.kind]; ok {
		sites = append(sites, fmt.Sprintf("%s %s@%s%s", k, m.name(toks), rng(m), args(m, "A")))
	}
	if m.kind == 'D' {
		d := fmt.Sprintf("definition %s@%s%s defaults", toks[m.from+1], rng(m), args(m, "LM"))
		for _, k := range m.kids {
			if k.kind == 'M' {
				d += " " + unq(k.name(toks))
			}
		}
		defs = append(defs, d)
	}
	for _, k := range m.kids {
		s, d := c12Sites(toks, k, rng)
		sites = append(sites, s...)
		defs = append(defs, d...)
	}
	return sites, defs
}

func c12Outline(toks []string, m *mark, rng func(m *mark) string) string {
	var kids []string
	label := ""
	var funcs func(m *mark)
	funcs = func(m *mark) {
		for _, k := range m.kids {
			if k.kind == 'F' {
				kids = append(kids, fmt.Sprintf("function %s@%s", k.name(toks), rng(k)))
			} else if k.kind != 'Q' {
				funcs(k)
			}
		}
	}
	switch m.kind {
	case 'D':
		label = "let " + toks[m.from+1]
		for _, k := range m.kids {
			if k.kind == 'Q' || k.kind == 'X' {
				kids = append(kids, c12Outline(toks, k, rng))
			}
		}
	case 'X':
		label = "query "
		funcs(m)
	case 'Q':
		label = "query "
		for i := m.from; i < m.to; i++ {
			if strings.EqualFold(toks[i], "SELECT") {
				break
			}
		}
		for _, k := range m.kids {
			switch k.kind {
			case 'C':
				kids = append(kids, c12Outline(toks, k, rng))
			case 'P', 'S':
				// The first one that is not in a column is the source.
				if label == "query " {
					label += k.name(toks)
				}
			}
		}
	case 'C':
		label = "column "
		for _, k := range m.kids {
			if k.kind == 'Q' && k.from == m.from+1 {
				// A query as a column.
				return c12Outline(toks, k, rng)
			}
		}
		if n := m.to; n-2 >= m.from && strings.EqualFold(toks[n-2], "AS") {
			label += toks[n-1]
		}
		funcs(m)
	}
	return fmt.Sprintf("%s@%s[%s]", label, rng(m), strings.Join(kids, " "))
}

func showRange(p, e lexer.Position) string {
	return fmt.Sprintf("%d:%d:%d-%d:%d:%d", p.Offset, p.Line, p.Column, e.Offset, e.Line, e.Column)
}

func showSites(v *vfilter.Visitor) (sites, defs []string) {
	args := func(as []vfilter.ArgDesc) string {
		s := ""
		for _, a := range as {
			s += fmt.Sprintf(" %s@%s", a.Name, showRange(a.Pos.Pos, a.Pos.EndPos))
		}
		return s
	}
	for _, c := range v.CallSites {
		sites = append(sites, fmt.Sprintf("%s %s@%s%s", c.Type, c.Name, showRange(c.Pos.Pos, c.Pos.EndPos), args(c.Args)))
	}
	for _, d := range v.Definitions {
		s := fmt.Sprintf("%s %s@%s%s defaults", d.Type, d.Name, showRange(d.Pos.Pos, d.Pos.EndPos), args(d.Args))
		for _, x := range d.Defaults {
			s += " " + x
		}
		defs = append(defs, s)
	}
	return sites, defs
}

func showOutline(o *vfilter.OutlineInfo) string {
	var kids []string
	for _, k := range o.Children {
		kids = append(kids, showOutline(k))
	}
	label := fmt.Sprintf("%s %s", o.Kind, o.Name)
	if o.Kind == vfilter.OutlineKindFunction {
		return label + "@" + showRange(o.Pos, o.EndPos)
	}
	return fmt.Sprintf("%s@%s[%s]", label, showRange(o.Pos, o.EndPos), strings.Join(kids, " "))
}

// c12Check lays out marked up tokens with the gaps and compares what is
// reported for the parsed text.
func c12Check(t *T, markup string, gap func(i int) string) {
	toks, marks := parseMarkup(markup)
	var sb strings.Builder
	starts := make([]int, len(toks)+1)
	comments := ""
	for i := 0; i <= len(toks); i++ {
		g := gap(i)
		sb.WriteString(g)
		if s := strings.TrimSpace(g); s != "" {
			comments += s + ";"
		}
		starts[i] = sb.Len()
		if i < len(toks) {
			sb.WriteString(toks[i])
		}
	}
	text := sb.String()
	rng := func(m *mark) string {
		return showRange(posAt(text, starts[m.from]), posAt(text, starts[m.to]))
	}
	stmts, err := vfilter.MultiParse(text)
	if err != nil {
		t.Fail("parse", "%s: %v", text, err)
		return
	}
	if len(stmts) != len(marks) {
		t.Fail("parse", "%s: %d statements instead of %d", text, len(stmts), len(marks))
		return
	}
	all := ""
	for i, s := range stmts {
		for _, o := range []vfilter.FormatOptions{vfilter.CollectAllInfo, {CollectCallSites: true, CollectDefinitionSites: true, BreakLines: true, IndentWidthThreshold: 10, MaxWidthThreshold: 30}} {
			v := vfilter.NewVisitor(vfilter.NewScope(), o)
			v.Visit(s)
			sites, defs := showSites(v)
			ws, wd := c12Sites(toks, marks[i], rng)
			sort.Strings(sites)
			sort.Strings(ws)
			expect(t, "sites", fmt.Sprintf("call sites of statement %d in %s", i, text), strings.Join(sites, "\n"), strings.Join(ws, "\n"))
			expect(t, "defs", fmt.Sprintf("definitions of statement %d in %s", i, text), strings.Join(defs, "\n"), strings.Join(wd, "\n"))
			all += strings.Join(sites, " ")
		}
		expect(t, "outline", fmt.Sprintf("outline of statement %d in %s", i, text), showOutline(vfilter.Outline(s)), c12Outline(toks, marks[i], rng))
	}
	t.Sig("%d", len(all))
	c12Tokens(t, text)
	if cs, err := vfilter.MultiParseWithComments(text); err == nil && comments != "" {
		got := ""
		for _, s := range cs {
			v := vfilter.NewVisitor(vfilter.NewScope(), vfilter.CollectAllInfo)
			v.Visit(s)
			for _, c := range v.Comments {
				got += strings.TrimSpace(c) + ";"
			}
		}
		expect(t, "comments", "comments of "+text, got, comments)
	}
}

var c12Atoms = []string{
	"<S a >>", "<S -b >>", "<S `x_é` . z >>", "'é^é'", "3", "<F fx ( ) >>", "<F g . h ( <A v = 1 >> ) >>", "<F fx ( <A v = <S a >> >> , <A `n_n` = \"é\" >> ) >> . k",
	"<F -fx ( <A v = <F g ( ) >> >> ) >>", "<F fx ( <A v = { <Q SELECT <C * >> FROM <S Q >> >> } >> ) >>", "<F dict ( <A x = [ <S a >> , <F g ( ) >> ] >> ) >>",
}

var c12Forms = []string{"%s", "%s + %s", "( %s , %s )", "NOT %s AND %s", "<S L >> [ ( %s ) ]", "<F fx ( <A v = %s >> , <A n = %s >> ) >>", "%s * ( %s ) = 'é'", "<F fx ( <A v = [ %s ] >> ) >> [ 0 ]", "<F fx ( <A v = { <Q SELECT <C %s >> FROM <P vals ( ) >> >> } >> ) >>"}

var c12Stmts = []string{
	"<Q SELECT <C %s >> FROM <P vals ( ) >> >>",
	"<Q SELECT <C %s AS `é_x` >> , <C * >> , <C <S c >> AS d >> FROM <P p . q ( <A v = 1 >> ) >> WHERE <S c >> LIMIT 3 >>",
	"<Q SELECT * FROM <P vals ( <A n = %s >> , <A m = 'é' >> ) >> >>",
	"<Q SELECT <C <S a >> >> FROM <S Q . `é` >> >>",
	"<Q EXPLAIN SELECT <C <S a >> >> FROM <S Q >> WHERE %s GROUP_BY %s ORDER_BY a DESC >>",
	"<D LET X = <X %s >> >>",
	"<D LET `é_X` ( <L p >> , <M q = %s >> , <L `r_r` >> , <M `s_s` = 'é' >> , <M t = { <Q SELECT * FROM <S u >> >> } >> ) <= <X %s >> >>",
	"<D LET X ( ) = <Q SELECT <C %s >> FROM <P vals ( ) >> >> >>",
	"<Q SELECT <C { <Q SELECT <C %s >> FROM <P vals ( ) >> >> } AS s >> FROM <P scope ( ) >> >>",
	"<Q SELECT * FROM <P foreach ( <A row = { <Q SELECT <C %s AS z >> FROM <P vals ( ) >> >> } >> , <A query = { <Q SELECT * , <C <S z >> >> FROM <S Q >> >> } >> ) >> >>",
	"<D LET A = <X 1 >> >> <Q SELECT <C %s >> FROM <S A >> >> <D LET B <= <Q SELECT * FROM <S A >> >> >>",
}

var c12Gaps = []string{" ", "\n", " \t\r\n ", " /* é\n */ ", " -- é SELECT f()\n", "\n// é\n"}

func init() {
	register(&Prop{
		ID:    "C12",
		Level: "model_checking",
		Rule:  "each token stands where it says, only blanks stand between them; the calls, symbols, definitions and parameters written in a text are reported once, with the range from their first token to the token after them",
		Suites: []Suite{
			{
				Name:  "characters",
				Bound: "tokens of all texts of up to 3 (thorough 5) of 19 characters, alone and after a line with wide characters",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 3
					if tier == Thorough {
						n = 5
					}
					batches(500, func(y func(string) bool) bool {
						return seqs(len(c13Chars), 0, n, func(s []int) bool {
							w := ""
							for _, i := range s {
								w += c13Chars[i]
							}
							return y(w)
						})
					}, func(b []string) bool {
						return y(Case{fmt.Sprintf("%q ..", b[0]), func(t *T) {
							for _, text := range b {
								c12Tokens(t, text)
								c12Tokens(t, "'é' /* ü\n */ -- é\n `ß` "+text+" 'é'")
							}
						}})
					})
				}),
			},
			{
				Name:  "pool",
				Bound: "tokens of all statements of the pool",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					poolCases(tier, poolStmts, y, func(t *T, text string) {
						c12Tokens(t, text)
						c12Tokens(t, "-- é\n"+text)
					})
				}),
			},
			{
				Name:  "sites",
				Bound: "11 statements around all expressions of 9 forms over 11 atoms, laid out with 6 kinds of blanks and comments",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, st := range c12Stmts {
						for _, f := range c12Forms {
							for _, a := range c12Atoms {
								if !y(Case{st + " " + f + " " + a, func(t *T) {
									for j, b := range c12Atoms {
										if tier == Quick && j > 3 && strings.Count(f, "%s") < 2 {
											break
										}
										x := strings.Replace(strings.Replace(f, "%s", a, 1), "%s", b, 1)
										m := strings.Replace(strings.Replace(st, "%s", x, 1), "%s", b, 1)
										for _, g := range c12Gaps {
											c12Check(t, m, func(int) string { return g })
											if tier == Quick && j > 0 {
												break
											}
										}
									}
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "gaps",
				Bound: "11 statements with each of 6 kinds of blanks and comments at each gap",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, st := range c12Stmts {
						m := strings.Replace(strings.Replace(st, "%s", c12Atoms[7], 1), "%s", c12Atoms[8], 1)
						toks, _ := parseMarkup(m)
						for i := 0; i <= len(toks); i++ {
							if !y(Case{fmt.Sprint(m, i), func(t *T) {
								for _, g := range c12Gaps {
									c12Check(t, m, func(j int) string {
										if j == i {
											return g
										}
										return " "
									})
								}
							}}) {
								return
							}
						}
					}
				}),
			},
		},
	})
}
