package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"unicode/utf8"

	"REPO/utils"
)

// literal forms of a string; nil if the form cannot express it.
var c09Forms = []struct {
	name string
	f    func(s string) (string, bool)
}{
	{"double", func(s string) (string, bool) {
		return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\r", `\r`, "\t", `\t`).Replace(s) + `"`, true
	}},
	{"single", func(s string) (string, bool) {
		return `'` + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(s) + `'`, true
	}},
	{"hex", func(s string) (string, bool) {
		r := `"`
		for i := 0; i < len(s); i++ {
			r += fmt.Sprintf([]string{`\x%02x`, `\x%02X`, `\X%02x`}[i%3], s[i])
		}
		return r + `"`, true
	}},
	{"raw", func(s string) (string, bool) {
		if strings.Contains(s, "'''") || strings.HasSuffix(s, "'") {
			return "", false
		}
		return "'''" + s + "'''", true
	}},
}

// refUnquote says what the body of a quoted literal denotes.
func refUnquote(body string) string {
	var out []byte
	for i := 0; i < len(body); {
		c := body[i]
		if c != '\\' {
			out = append(out, c)
			i++
			continue
		}
		if i+1 == len(body) {
			return string(out) // cut off
		}
		e := body[i+1]
		switch e {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'x', 'X':
			if i+3 >= len(body) {
				return string(out) // cut off
			}
			h, l := c09hex(body[i+2]), c09hex(body[i+3])
			if h < 0 || l < 0 {
				// not an escape
				out = append(out, c)
				i++
				continue
			}
			out = append(out, byte(h*16+l))
			i += 4
			continue
		default:
			out = append(out, e)
		}
		i += 2
	}
	return string(out)
}

// c09Escape looks at each escape of one byte (hi<0) or each hex escape whose
// first character is hi.
func c09Escape(t *T, hi int) {
	var bodies []string
	if hi < 0 {
		for b := 0; b < 256; b++ {
			bodies = append(bodies, "\\"+string([]byte{byte(b)}), "p\\"+string([]byte{byte(b)})+"q")
		}
	} else {
		for lo := 0; lo < 128; lo++ {
			bodies = append(bodies, "p\\x"+string([]byte{byte(hi), byte(lo)})+"q", "\\X"+string([]byte{byte(hi), byte(lo)}))
		}
	}
	var lits, want []string
	for _, w := range bodies {
		for _, q := range []string{`"`, `'`} {
			if !refBodyOK(w, q[0]) {
				continue
			}
			if !expect(t, "unquote", q+w+q, show(utils.Unquote(q+w+q)), show(refUnquote(w))) {
				continue
			}
			if utf8.ValidString(w) && !strings.Contains(w, "\x00") {
				lits = append(lits, q+w+q)
				want = append(want, show(refUnquote(w)))
			}
		}
	}
	c09Values(t, lits, want)
}

func c09hex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// refBodyOK says if a body can stand between these quotes.
func refBodyOK(body string, q byte) bool {
	for i := 0; i < len(body); i++ {
		if body[i] == q {
			return false
		}
		if body[i] == '\\' {
			i++
			if i == len(body) {
				return false
			}
		}
	}
	return true
}

// c09Values evaluates literals and compares their values.
func c09Values(t *T, lits []string, want []string) {
	e := newEnv(t)
	const chunk = 50
	for lo := 0; lo < len(lits); lo += chunk {
		hi := min(lo+chunk, len(lits))
		var cols []string
		for i, l := range lits[lo:hi] {
			cols = append(cols, fmt.Sprintf("%s AS c%d", l, i))
		}
		rows := e.query("SELECT " + strings.Join(cols, ", ") + " FROM scope()")
		if len(rows) != 1 {
			t.Fail("rows", "%d rows", len(rows))
			continue
		}
		for i, l := range lits[lo:hi] {
			v, _ := rows[0].Get(fmt.Sprint("c", i))
			expect(t, "value", l, show(v), want[lo+i])
		}
	}
	for _, l := range e.errorLogs() {
		t.Fail("log", "logged %s", l)
	}
	t.Sig("%d", len(lits))
}

// words calls f with every word over the alphabet, in batches.
func c09Words(alpha []string, min, max, batch int, f func(name string, words []string) bool) bool {
	var ws []string
	ok := seqs(len(alpha), min, max, func(s []int) bool {
		var b strings.Builder
		for _, i := range s {
			b.WriteString(alpha[i])
		}
		ws = append(ws, b.String())
		if len(ws) == batch {
			w := ws
			ws = nil
			return f(fmt.Sprintf("%q..%q", w[0], w[len(w)-1]), w)
		}
		return true
	})
	if ok && len(ws) > 0 {
		return f(fmt.Sprintf("%q..%q", ws[0], ws[len(ws)-1]), ws)
	}
	return ok
}

var c09Chars = []string{"a", "x", "n", "1", " ", "\\", "'", "\"", "`", "\n", "\t", "\r", "\x00", "\u00e9", "\u65e5", "\xff", "/*", "--", "{", "%", "X", "g"}

var c09Number = regexp.MustCompile(`^-?(0x[0-9a-fA-F]+|\d*\.?\d+([eE][-+]?\d+)?)$`)

// c09NumberValue gives the value a number literal denotes, "" if it has none
// within range or is left open.
func c09NumberValue(l string) string {
	neg := strings.HasPrefix(l, "-")
	d := strings.TrimPrefix(l, "-")
	if strings.HasPrefix(d, "0x") {
		z, ok := new(big.Int).SetString(d[2:], 16)
		if !ok {
			return ""
		}
		if neg {
			z.Neg(z)
		}
		if !z.IsInt64() {
			return ""
		}
		return show(z.Int64())
	}
	if !strings.ContainsAny(d, ".eE") {
		if len(d) > 1 && d[0] == '0' {
			return "" // leading zero: left open
		}
		z, _ := new(big.Int).SetString(d, 10)
		if neg {
			z.Neg(z)
		}
		if z.IsInt64() {
			return show(z.Int64())
		}
	}
	// Exactly, then rounded once.
	r, ok := new(big.Rat).SetString(strings.TrimPrefix(l, "-"))
	if !ok {
		return ""
	}
	f, _ := r.Float64()
	if f > 1e308 {
		return ""
	}
	if neg {
		f = -f
	}
	return show(f)
}

func c09Numbers(t *T, words []string) {
	var lits, want []string
	for _, w := range words {
		if !c09Number.MatchString(w) {
			continue
		}
		v := c09NumberValue(w)
		if v == "" {
			continue
		}
		lits = append(lits, w)
		want = append(want, v)
	}
	if len(lits) == 0 {
		t.Sig("none")
		return
	}
	c09Values(t, lits, want)
}

// c09Names uses each name in every place where a name can be written.
func c09Names(t *T, names []string) {
	for _, n := range names {
		q := "`" + n + "`"
		e := newEnv(t)
		check := func(what, text, want string) {
			got := e.query(strings.ReplaceAll(text, "@", q))
			expect(t, "name:"+what, fmt.Sprintf("%s named %q", what, n), showRows(got), want)
		}
		cell := func(v string) string { return "{" + n + ":" + v + "}" }
		check("alias", "SELECT 1 AS @ FROM scope()", cell("1"))
		check("column", "SELECT @ FROM foreach(row={SELECT 2 AS @, 3 AS b FROM scope()})", cell("2"))
		check("member", "SELECT dict(@=3).@ AS r FROM scope()", "{r:3}")
		check("key", "SELECT dict(@=dict(b=4)) AS r FROM scope()", "{r:"+cell("{b:4}")+"}")
		check("where", "SELECT b FROM foreach(row={SELECT i AS @, i + 1 AS b FROM gen(n=3)}) WHERE @ = 1", "{b:2}")
		check("order", "SELECT i AS @ FROM gen(n=2) ORDER BY @ DESC", cell("1")+";"+cell("0"))
		check("group", "SELECT i AS @ FROM gen(n=2) GROUP BY @", cell("0")+";"+cell("1"))
		check("let", "LET @ = 5 SELECT @ AS r, -@ AS n FROM scope()", "{r:5,n:-5}")
		check("parameter", "LET f9(@) = @ + 1 SELECT f9(@=6) AS r FROM scope()", "{r:7}")
		check("default", "LET f9(@=3) = @ + 1 SELECT f9() AS r FROM scope()", "{r:4}")
		check("query", "LET @ = SELECT i FROM gen(n=1) SELECT * FROM @", "{i:0}")
		check("query call", "LET @(n) = SELECT i + n AS j FROM gen(n=1) SELECT * FROM @(n=3)", "{j:3}")
		check("function", "LET @(n) = n + 1 SELECT @(n=3) AS r FROM scope()", "{r:4}")
		check("variable member", "LET v9 = dict(@=dict(@=8)) SELECT v9.@.@ AS r FROM scope()", "{r:8}")
		check("plugin argument", "SELECT * FROM showargs(@=9)", cell("9"))
		check("dotted plugin", "LET v9 = dict(@={SELECT i FROM gen(n=1)}) SELECT * FROM v9.@", "{i:0}")
		settle(t, "names")
		for _, l := range e.errorLogs() {
			t.Fail("log", "%q: logged %s", n, l)
		}
	}
	t.Sig("%d", len(names))
}

func init() {
	register(&Prop{
		ID:    "C09",
		Level: "model_checking",
		Rule:  "each literal has the value that a reference decoder gives it; each name is what stands between the back quotes",
		Suites: []Suite{
			{
				Name:  "strings",
				Bound: "all strings of up to 3 (thorough 4) characters over 22, written in 4 forms",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 3
					if tier == Thorough {
						n = 4
					}
					c09Words(c09Chars, 0, n, 400, func(name string, words []string) bool {
						return y(Case{name, func(t *T) {
							var lits, want []string
							for _, w := range words {
								for _, f := range c09Forms {
									if l, ok := f.f(w); ok {
										lits = append(lits, l)
										want = append(want, show(w))
									}
								}
							}
							c09Values(t, lits, want)
						}})
					})
				}),
			},
			{
				Name:  "every escape",
				Bound: "a backslash before each of 256 bytes, \\x and \\X before all pairs of 128 bytes",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for hi := -1; hi < 128; hi++ {
						if !y(Case{fmt.Sprint(hi), func(t *T) { c09Escape(t, hi) }}) {
							return
						}
					}
				}),
			},
			{
				Name:  "escapes",
				Bound: "all literal bodies of up to 5 (thorough 6) characters over 10",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 5
					if tier == Thorough {
						n = 6
					}
					c09Words([]string{"\\", "x", "4", "a", "g", "n", "\"", "'", "\u00e9", "F"}, 0, n, 1000, func(name string, words []string) bool {
						return y(Case{name, func(t *T) {
							var lits, want []string
							for _, w := range words {
								for _, q := range []string{`"`, `'`} {
									if !refBodyOK(w, q[0]) {
										continue
									}
									got := utils.Unquote(q + w + q)
									if !expect(t, "unquote", q+w+q, show(got), show(refUnquote(w))) {
										continue
									}
									if len(w) < n {
										lits = append(lits, q+w+q)
										want = append(want, show(refUnquote(w)))
									}
								}
							}
							c09Values(t, lits, want)
						}})
					})
				}),
			},
			{
				Name:  "numbers",
				Bound: "all number literals of up to 5 (thorough 6) characters over 12 and boundary values",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 5
					if tier == Thorough {
						n = 6
					}
					if !c09Words([]string{"0", "1", "7", "9", ".", "e", "E", "x", "-", "+", "a", "F"}, 1, n, 4000, func(name string, words []string) bool {
						return y(Case{name, func(t *T) { c09Numbers(t, words) }})
					}) {
						return
					}
					var ws []string
					for _, b := range []string{"9223372036854775807", "9223372036854775808", "9223372036854775806", "0x7fffffffffffffff", "0x7FFFFFFFFFFFFFFE", "0x8000000000000000",
						"4294967296", "2147483648", "9007199254740993", "18446744073709551616", "0.1", "0.30000000000000004", "1e22", "1e23", "1e-323", "1.7976931348623157e308",
						"123456789.125", "1E+5", "2.5e-07", "99999999999999999999", "0x0000000000000000001"} {
						ws = append(ws, b, "-"+b)
					}
					y(Case{"boundaries", func(t *T) { c09Numbers(t, ws) }})
				}),
			},
			{
				Name:  "names",
				Bound: "all names of up to 2 (thorough 3) pieces over 16 in 16 places",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := 2
					if tier == Thorough {
						n = 3
					}
					c09Words([]string{"a", " ", ".", "'", "\"", "\\", "-", "1", "(", "*", "\u00e9", "\n", "SELECT", "_", "=", "--"}, 1, n, 8, func(name string, words []string) bool {
						return y(Case{name, func(t *T) { c09Names(t, words) }})
					})
				}),
			},
		},
	})
}
