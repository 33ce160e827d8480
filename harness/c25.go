package main

import (
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// An argument: missing, or a Go value.
type c25Arg struct {
	name string
	v    any
	// A VQL text that gives the value (otherwise a variable is set).
	text string
}

var c25Missing = c25Arg{name: "(missing)"}

func c25V(v any) c25Arg { return c25Arg{name: fmt.Sprintf("%T(%s)", v, trunc(show(v), 30)), v: v} }
func c25T(text string, v any) c25Arg {
	return c25Arg{name: text, v: v, text: text}
}

func (a c25Arg) missing() bool { return a.name == c25Missing.name }
func (a c25Arg) null() bool    { return !a.missing() && types.IsNil(a.v) }

type c25Err struct{ s string }

func (e c25Err) Error() string { return e.s }

type c25Stringer struct{ s string }

func (s c25Stringer) String() string { return s.s }

var errC25 = errors.New("an error")

// c25Item has members of several kinds.
var c25Item = D("a", int64(1), "b", D("c", int64(2), "l", []any{int64(10), D("k", int64(11)), nil}), "n", nil, "l", []any{"x", []any{"y", "z"}, D("k", int64(5)), D("k", int64(6), "j", int64(7))}, "", int64(9), "a b", int64(8))

// c25Forms are the ways an argument is written.
const c25Forms = 5

// c25Write writes an argument; forms: value, definition, parameter of a
// definition, result of a function, in **.
func c25Write(e *Env, field string, i int, a c25Arg, form int) (string, string) {
	if a.missing() {
		return "", ""
	}
	text := a.text
	if text == "" {
		text = fmt.Sprintf("v%d", i)
		e.set(text, a.v)
	}
	if strings.HasPrefix(text, "{") && (form == 1 || form == 2) {
		// A query cannot be the value of an expression.
		form = 0
	}
	if strings.HasPrefix(text, "[") && form != 4 {
		// (Only as an argument.)
		form = 0
	}
	switch form {
	case 1:
		return fmt.Sprintf("LET d%d = %s ", i, text), fmt.Sprintf("%s=d%d", field, i)
	case 2:
		return fmt.Sprintf("LET d%d(x) = x ", i), fmt.Sprintf("%s=d%d(x=%s)", field, i, text)
	case 3:
		return "", fmt.Sprintf("%s=fx(v=%s, n='%s')", field, text, field)
	}
	return "", field + "=" + text
}

// c25Call evaluates a function or plugin with arguments; returns the value
// (or rows) and the number of messages.
func c25Call(t *T, fn string, fields []string, args []c25Arg, form int, plugin bool) (string, any, []string) {
	e := newEnv(t).set("sv", c25Item)
	var defs, parts []string
	n := 0
	for i, f := range fields {
		d, p := c25Write(e, f, i, args[i], form)
		if p != "" {
			defs = append(defs, d)
			parts = append(parts, p)
			n++
		}
	}
	call := fn + "(" + strings.Join(parts, ", ") + ")"
	if form == 4 && n > 0 {
		call = fn + "(`**`=dict(" + strings.Join(parts, ", ") + "))"
	}
	text := strings.Join(defs, "") + "SELECT " + call + " AS r FROM scope()"
	if plugin {
		text = strings.Join(defs, "") + "SELECT * FROM " + call + " LIMIT 41"
	}
	rows := e.query(text)
	settle(t, text)
	logs := e.errorLogs()
	what := text
	for i, a := range args {
		if a.text == "" && !a.missing() {
			what += fmt.Sprintf(" [%s = %s]", fields[i], a.name)
		}
	}
	if plugin {
		return what, rows, logs
	}
	if len(rows) != 1 {
		t.Fail("rows", "%s: %d rows", what, len(rows))
		return what, nil, logs
	}
	v, _ := rows[0].Get("r")
	return what, v, logs
}

// c25Func is a function with what it should give. want returns the value and
// whether something has to be logged.
type c25Func struct {
	name   string
	fields []string
	doms   [][]c25Arg
	want   func(a []c25Arg) (any, bool)
	plugin bool
	forms  []int
}

// c25Unspec: any value, but no panic.
var c25Unspec = &struct{ x int }{}

func (f *c25Func) cases(y func(Case) bool) bool {
	idx := make([]int, len(f.fields))
	for {
		args := make([]c25Arg, len(idx))
		for i, k := range idx {
			args[i] = f.doms[i][k]
		}
		var names []string
		for _, a := range args {
			names = append(names, a.name)
		}
		if !y(Case{fmt.Sprintf("%s %s %v", f.name, f.fields, names), func(t *T) { f.check(t, args) }}) {
			return false
		}
		i := len(idx) - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(f.doms[i]) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

func (f *c25Func) check(t *T, args []c25Arg) {
	forms := f.forms
	if forms == nil {
		forms = []int{0, 1, 2, 3, 4}
	}
	for _, form := range forms {
		want, logs := f.want(args)
		what, got, l := c25Call(t, f.name, f.fields, args, form, f.plugin)
		if want == c25Unspec {
			t.Sig("?")
			continue
		}
		g, w := "", ""
		if f.plugin {
			g, w = showRows(got.([]*ordereddict.Dict)), showRows(want.([]*ordereddict.Dict))
		} else {
			g, w = c25Show(got), c25Show(want)
		}
		if expect(t, f.name, what, g, w) {
			if logs && len(l) == 0 {
				t.Fail(f.name+":silent", "%s: a wrong argument is not reported", what)
			}
			if !logs && len(l) > 0 {
				t.Fail(f.name+":log", "%s: logs %q", what, l)
			}
		}
		t.Sig("%s", trunc(g, 60))
	}
}

func c25Show(v any) string {
	if tm, ok := v.(time.Time); ok {
		return "time " + tm.UTC().Format(time.RFC3339Nano)
	}
	return show(v)
}

func c25Str(a c25Arg) (string, bool) {
	switch t := a.v.(type) {
	case string:
		return t, true
	case []byte:
		return string(t), true
	}
	return "", false
}

var c25Null any = types.Null{}

func c25Lists() []c25Arg {
	return []c25Arg{
		c25V([]any{}), c25V([]any{int64(1)}), c25V([]any{int64(1), nil, "x"}), c25V([]string{"a", "b"}), c25V([]string{}), c25V([]int{1, 2, 3}), c25V([2]int{4, 5}), c25V([]byte("abc")), c25V([]types.Row{D("a", int64(1)), D("a", int64(2))}), c25V([]*ordereddict.Dict{D("a", int64(1))}), c25V([]any{[]any{int64(1), int64(2)}, []any{}}),
		c25T("(1, 2, 3)", []any{int64(1), int64(2), int64(3)}), c25T("(1, )", []any{int64(1)}), c25T("['a', 'b']", []any{"a", "b"}),
	}
}

func c25Functions() []c25Func {
	null := c25V(types.Null{})
	pnull := c25V(&types.Null{})
	nilv := c25V(nil)
	tnull := c25T("NULL", types.Null{})
	scalars := []c25Arg{null, pnull, nilv, tnull, c25V(true), c25V(false), c25V(int64(5)), c25V(int64(-3)), c25V(uint8(7)), c25V(1.5), c25T("7", int64(7)), c25T("TRUE", true)}
	strs := []c25Arg{c25V(""), c25V("abc"), c25V("\u00e9\u4e16"), c25V("a,b,,c"), c25T("'lit'", "lit"), c25V("\xff\x00")}
	dicts := []c25Arg{c25V(D()), c25V(D("a", int64(1), "b", nil)), c25V(map[string]any{"x": 1}), c25V(map[string]int{}), c25T("dict(a=1, b=2, c=3)", D("a", int64(1), "b", int64(2), "c", int64(3)))}
	odd := []c25Arg{c25V(time.Unix(1, 0)), c25V(struct{ A int }{1}), c25V(errC25), c25V(&c22S{A: 1}), c25V((*c22S)(nil)), c25V(func() {}), c25V([]any(nil)), c25V((*ordereddict.Dict)(nil))}
	join := func(l ...[]c25Arg) []c25Arg {
		var r []c25Arg
		for _, x := range l {
			r = append(r, x...)
		}
		return r
	}
	miss := []c25Arg{c25Missing}
	var res []c25Func

	// len: the number of elements, members or bytes.
	res = append(res, c25Func{
		name: "len", fields: []string{"list"}, doms: [][]c25Arg{join(miss, scalars, strs, dicts, odd, c25Lists(), []c25Arg{c25T("{ SELECT i FROM gen(n=3) }", []any{1, 2, 3}), c25T("{ SELECT i FROM gen(n=0) }", []any{})})},
		want: func(a []c25Arg) (any, bool) {
			if strings.HasPrefix(a[0].text, "{") {
				return c25Unspec, false
			}
			if a[0].missing() {
				return c25Null, true
			}
			switch t := a[0].v.(type) {
			case string:
				return int64(len(t)), false
			case *ordereddict.Dict:
				if t == nil {
					return int64(0), false
				}
				return int64(t.Len()), false
			case map[string]any:
				return int64(len(t)), false
			case map[string]int:
				return int64(len(t)), false
			}
			if l, ok := c25Slice(a[0].v); ok {
				return int64(len(l)), false
			}
			return int64(0), false
		},
	})

	// split
	texts := []string{"", "a", "a,b", ",a,,b,", "a.b.c", "aXbxc", "a  b", "\u00e9,\u4e16,", "ab12cd"}
	var sdom []c25Arg
	for _, s := range texts {
		sdom = append(sdom, c25V(s))
	}
	sdom = append(sdom, c25T("'x,y'", "x,y"))
	seps := []c25Arg{c25Missing, c25V(""), c25V(","), c25V("[,.]"), c25V("(?i)x"), c25V("\\s+"), c25V("b*"), c25V("("), c25V("."), c25V("[0-9]"), c25V("^a"), c25T("''',''' ", ",")}
	sseps := []c25Arg{c25Missing, c25V(""), c25V(","), c25V("."), c25V(",,"), c25V("abc"), c25V("\u4e16"), c25T("'x'", "x")}
	res = append(res, c25Func{
		name: "split", fields: []string{"string", "sep", "sep_string"}, doms: [][]c25Arg{append(sdom, c25Missing), seps, sseps},
		want: func(a []c25Arg) (any, bool) {
			if a[0].missing() {
				return c25Null, true
			}
			s := a[0].v.(string)
			if sep, _ := c25Str(a[1]); sep != "" {
				re, err := regexp.Compile(sep)
				if err != nil {
					return c25Null, true
				}
				return re.Split(s, -1), false
			}
			if sep, _ := c25Str(a[2]); sep != "" {
				var r []string
				for {
					i := strings.Index(s, sep)
					if i < 0 {
						return append(r, s), false
					}
					r = append(r, s[:i])
					s = s[i+len(sep):]
				}
			}
			return c25Null, true
		},
	})

	// encode
	var edom []c25Arg
	for _, s := range []string{"", "a", "abc\x00\xff", "\u00e9\u4e16\U0001F600", "hello world"} {
		edom = append(edom, c25V(s))
	}
	edom = append(edom, c25V([]byte("xyz")), c25V(int64(15)), c25V(1.5), c25V(true), c25V(errC25), c25V(c25Stringer{"str"}), c25V(c25Err{"err"}), c25T("'lit'", "lit"), c25V(c25UTF16("h\u00e9\U0001F600", false)), c25V(c25UTF16("ab", true)), c25Missing)
	res = append(res, c25Func{
		name: "encode", fields: []string{"string", "type"}, doms: [][]c25Arg{edom, {c25Missing, c25T("'hex'", "hex"), c25V("hex"), c25V("string"), c25V("base64"), c25V("utf16"), c25V("HEX"), c25V("nosuch"), c25V("")}},
		want: func(a []c25Arg) (any, bool) {
			if a[0].missing() || a[1].missing() {
				return c25Null, true
			}
			var s string
			switch t := a[0].v.(type) {
			case string:
				s = t
			case []byte:
				s = string(t)
			case error:
				s = t.Error()
			case fmt.Stringer:
				s = t.String()
			default:
				s = fmt.Sprint(t)
			}
			switch a[1].v.(string) {
			case "hex":
				return hex.EncodeToString([]byte(s)), false
			case "string":
				return s, false
			case "base64":
				return base64.StdEncoding.EncodeToString([]byte(s)), false
			case "utf16":
				if strings.HasPrefix(s, "\xff\xfe") || s == "" {
					return c25FromUTF16(s), false
				}
				return c25Unspec, false
			}
			return c25Null, true
		},
	})

	// timestamp
	tdom := []c25Arg{c25Missing, c25V(int64(0)), c25V(int64(1)), c25V(int64(-1)), c25V(int64(1600000000)), c25V(int64(253402300800)), c25V(uint32(1600000001)), c25T("1500000000", int64(1500000000)), c25V(1.6e9)}
	wdom := []c25Arg{c25Missing, c25V(int64(0)), c25V(int64(1)), c25V(int64(132444736000000000)), c25V(int64(116444736009999999)), c25V(int64(-5)), c25T("132444736000000000", int64(132444736000000000))}
	res = append(res, c25Func{
		name: "timestamp", fields: []string{"epoch", "winfiletime"}, doms: [][]c25Arg{tdom, wdom},
		want: func(a []c25Arg) (any, bool) {
			num := func(x c25Arg) int64 {
				switch t := x.v.(type) {
				case int64:
					return t
				case uint32:
					return int64(t)
				case float64:
					return int64(t)
				}
				return 0
			}
			if e := num(a[0]); e > 0 {
				return time.Unix(e, 0), false
			}
			if w := num(a[1]); w > 0 {
				// 100 ns units since 1601.
				return time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC).Add(0).AddDate(0, 0, int(w/10000000/86400)).Add(time.Duration(w/10000000%86400) * time.Second), false
			}
			return c25Null, false
		},
	})

	// get
	item := c25Item
	idom := []c25Arg{c25Missing, c25V(item), c25V([]any{int64(4), D("a", int64(3)), []any{int64(7)}}), c25V([]string{"p", "q"}), c25V("text"), c25V(int64(3)), null, tnull, nilv, c25V(D()), c25T("dict(a=dict(b=3), l=(1, 2))", D("a", D("b", int64(3)), "l", []any{int64(1), int64(2)}))}
	var mdom []c25Arg
	for _, m := range []string{"sv", "sv.a", "sv.b.l.0", "sv.l.k", "sv.nosuch", "nosuch.sv", "a", "b", "b.c", "b.l.0", "b.l.1.k", "b.l.2", "b.l.2.x", "n", "n.x", "l.0", "l.1.1", "l.-1.j", "l.-1", "l.9", "l.-9", "l.k", "l.j", "l.nosuch", "", "a b", "nosuch", "nosuch.a", "a.b", "b.", ".b", "0", "1", "1.a", "2.0", "-1", "a.0", "0.0", "00", "+1", "3"} {
		mdom = append(mdom, c25V(m))
	}
	mdom = append(mdom, c25T("'a.b'", "a.b"), c25Missing)
	res = append(res, c25Func{
		name: "get", fields: []string{"item", "member"}, doms: [][]c25Arg{idom, mdom},
		want: func(a []c25Arg) (any, bool) {
			if a[1].missing() {
				return c25Null, true
			}
			v := a[0].v
			if a[0].missing() {
				v = D("sv", item)
			}
			for _, m := range strings.Split(a[1].v.(string), ".") {
				if types.IsNil(v) {
					return c25Null, false
				}
				i, err := strconv.Atoi(m)
				isInt := err == nil
				switch t := v.(type) {
				case *ordereddict.Dict:
					x, pres := t.Get(m)
					if !pres {
						return c25Null, false
					}
					v = x
				default:
					l, ok := c25Slice(v)
					if !ok {
						if _, str := v.(string); str {
							// (Indexes of strings.)
							return c25Unspec, false
						}
						return c25Null, false
					}
					if isInt {
						if i < 0 {
							i += len(l)
						}
						if i < 0 || i >= len(l) {
							return c25Null, false
						}
						v = l[i]
						continue
					}
					v = c25Members(l, m)
				}
			}
			if v == nil {
				return c25Null, false
			}
			return v, false
		},
	})

	// format
	fdom := []c25Arg{c25Missing, c25T("'x %v'", "x %v"), c25V(""), c25V("plain"), c25V("%%"), c25V("%v"), c25V("%d-%s"), c25V("%05.1f|%x"), c25V("%[2]v %[1]v"), c25V("%q %T"), c25V("%v %v %v"), c25V("%"), c25V("%z")}
	adom := []c25Arg{c25Missing, c25V(int64(5)), c25V("s"), c25V(1.5), c25V(true), c25V([]any{}), c25V([]any{int64(5), "s"}), c25V([]string{"a", "b"}), c25V([]any{1.5, int64(255)}), c25V([]any{"only"}), c25T("(1, 'x', 2)", []any{int64(1), "x", int64(2)}), c25T("'lit'", "lit"), c25V([]int{7, 8})}
	res = append(res, c25Func{
		name: "format", fields: []string{"format", "args"}, doms: [][]c25Arg{fdom, append(adom, null, tnull, nilv, pnull)},
		want: func(a []c25Arg) (any, bool) {
			if a[0].missing() {
				return c25Null, true
			}
			f := a[0].v.(string)
			var args []any
			if a[1].null() {
				// NULL is an argument that prints in some way.
				if !strings.Contains(f, "%") || f == "%%" {
					return c25Unspec, false
				}
				return c25Unspec, false
			} else if l, ok := c25Slice(a[1].v); ok {
				args = l
			} else if !a[1].missing() {
				args = []any{a[1].v}
			}
			return fmt.Sprintf(f, args...), false
		},
	})

	// dict
	res = append(res, c25Func{
		name: "dict", forms: []int{0, 1, 2, 3}, fields: []string{"a", "`b c`", "A"}, doms: [][]c25Arg{
			join(miss, scalars, strs[:2], dicts, c25Lists()),
			{c25Missing, c25V(int64(1)), c25T("dict(z=1, y=dict(x=2))", D("z", int64(1), "y", D("x", int64(2))))},
			{c25Missing, c25V("s"), c25T("{ SELECT i FROM gen(n=2) }", []any{D("i", int64(0)), D("i", int64(1))}), c25T("(1, (2, 3))", []any{int64(1), []any{int64(2), int64(3)}})}},
		want: func(a []c25Arg) (any, bool) {
			d := D()
			for i, n := range []string{"a", "b c", "A"} {
				switch t := a[i].v.(type) {
				case map[string]any:
					m := D()
					for k, v := range t {
						m.Set(k, v)
					}
					d.Set(n, m)
				case map[string]int:
					d.Set(n, D())
				default:
					if !a[i].missing() {
						d.Set(n, t)
					}
				}
			}
			return d, false
		},
	})

	// range
	n := func(i int64) c25Arg { return c25V(i) }
	big := int64(math.MaxInt64)
	res = append(res, c25Func{
		name: "range", plugin: true, fields: []string{"start", "end", "step"},
		doms: [][]c25Arg{
			{c25Missing, n(0), n(1), n(-2), n(5), n(big - 2), n(big), n(math.MinInt64), c25T("3", int64(3)), null},
			{c25Missing, n(0), n(1), n(4), n(-1), n(big), n(math.MinInt64 + 2), n(math.MinInt64), c25T("6", int64(6))},
			{c25Missing, n(0), n(1), n(2), n(3), n(100), n(big), n(-1), n(-2), n(math.MinInt64), c25T("4", int64(4)), null}},
		want: func(a []c25Arg) (any, bool) {
			if a[1].missing() {
				return []*ordereddict.Dict(nil), true
			}
			num := func(x c25Arg) int64 { i, _ := x.v.(int64); return i }
			start, end, step := num(a[0]), num(a[1]), num(a[2])
			if a[0].null() || a[2].null() {
				return c25Unspec, false
			}
			if step == 0 {
				step = 1
			}
			if step < 0 {
				return []*ordereddict.Dict(nil), true
			}
			var rows []*ordereddict.Dict
			for i := start; i < end; i += step {
				rows = append(rows, D("_value", i))
				if len(rows) > 40 {
					break
				}
				if i > big-step {
					break
				}
			}
			return rows, false
		},
	})
	return res
}

func c25Slice(v any) ([]any, bool) {
	switch t := v.(type) {
	case []any:
		return t, true
	case []string:
		return c25Conv(t), true
	case []int:
		return c25Conv(t), true
	case [2]int:
		return c25Conv(t[:]), true
	case []byte:
		return c25Conv(t), true
	case []types.Row:
		return c25Conv(t), true
	case []*ordereddict.Dict:
		return c25Conv(t), true
	case types.Any:
		_ = t
	}
	return nil, false
}

// c25Members is the member of the elements of a list that have it.
func c25Members(l []any, m string) []any {
	r := []any{}
	for _, x := range l {
		if d, ok := x.(*ordereddict.Dict); ok {
			if y, pres := d.Get(m); pres {
				r = append(r, y)
			}
		} else if k, ok := c25Slice(x); ok {
			r = append(r, c25Members(k, m))
		}
	}
	return r
}

func c25Conv[X any](l []X) []any {
	r := []any{}
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

func c25UTF16(s string, big bool) string {
	out := "\xff\xfe"
	if big {
		out = "\xfe\xff"
	}
	for _, u := range utf16.Encode([]rune(s)) {
		if big {
			out += string([]byte{byte(u >> 8), byte(u)})
		} else {
			out += string([]byte{byte(u), byte(u >> 8)})
		}
	}
	return out
}

func c25FromUTF16(s string) string {
	if s == "" {
		return ""
	}
	var u []uint16
	for i := 2; i+1 < len(s); i += 2 {
		u = append(u, uint16(s[i])|uint16(s[i+1])<<8)
	}
	return string(utf16.Decode(u))
}

var _ = vfilter.NewScope

// c25Cond are conditions with their truth values.
var c25Cond = []struct {
	text string
	want bool
}{
	{"TRUE", true}, {"FALSE", false}, {"NULL", false}, {"0", false}, {"1", true}, {"0.0", false}, {"1.5", true}, {"''", false}, {"'x'", true}, {"1 = 1", true}, {"1 = 2", false},
	{"nosuch", false}, {"fx(v=1, n='c')", true}, {"fx(v=0, n='c')", false}, {"(1, 2)", true}, {"dict(a=1)", true}, {"dict()", false}, {"t", true}, {"f", false}, {"NOT t", false}, {"df", true},
}

// c25Branch are values of branches: text, value, notes when it is evaluated.
var c25Branch = []struct {
	text  string
	want  any
	trace string
}{
	{"", nil, ""}, {"NULL", nil, ""}, {"5", int64(5), ""}, {"'s'", "s", ""}, {"FALSE", false, ""}, {"0", int64(0), ""}, {"fx(v=7, n='@')", int64(7), "@(7)"}, {"fx(v=NULL, n='@')", nil, "@(NULL)"},
	{"d@", int64(8), "d@(8)"}, {"dict(k=fx(v=1, n='@'))", D("k", int64(1)), "@(1)"}, {"(1, fx(v=2, n='@'))", []any{int64(1), int64(2)}, "@(2)"},
	{"if(condition=fx(v=0, n='@c'), then=fx(v=1, n='@t'), else=fx(v=2, n='@e'))", int64(2), "@c(0) @e(2)"},
	{"if(condition=1, then=d@, else=fx(v=2, n='@e'))", int64(8), "d@(8)"},
	{"{ SELECT i FROM gen(n=2, name='@') }", []any{D("i", int64(0)), D("i", int64(1))}, "open-@ @0 @1"},
	{"{ SELECT fx(v=i, n='@') AS i FROM gen(n=1) WHERE FALSE }", []any{}, "open-"},
	{"q@", []any{D("i", int64(0))}, "open-q@ q@0"},
	{"m@(x=fx(v=3, n='@'))", int64(4), "@(3)"},
	{"sv.b.c", int64(2), ""}, {"nosuch", nil, ""}, {"lv", []any{int64(1), nil}, ""},
}

const c25Defs = "LET df = 1 LET dT = fx(v=8, n='dT') LET dE = fx(v=8, n='dE') LET mT(x) = x + 1 LET mE(x) = x + 1 LET qT = SELECT i FROM gen(n=1, name='qT') LET qE = SELECT i FROM gen(n=1, name='qE') "

func c25If(t *T, ci, ti, ei, form int) {
	c, th, el := c25Cond[ci], c25Branch[ti], c25Branch[ei]
	e := newEnv(t).set("t", true).set("f", false).set("sv", c25Item).set("lv", []any{int64(1), nil})
	arg := func(n, text, tag string) string {
		if text == "" {
			return ""
		}
		return ", " + n + "=" + strings.ReplaceAll(text, "@", tag)
	}
	var args string
	if form == 1 {
		args = (arg("else", el.text, "E") + arg("then", th.text, "T") + arg("condition", c.text, ""))[2:]
	} else {
		args = "condition=" + c.text + arg("then", th.text, "T") + arg("else", el.text, "E")
	}
	call := "if(" + args + ")"
	want, tr, tag := el.want, el.trace, "E"
	if c.want {
		want, tr, tag = th.want, th.trace, "T"
	}
	tr = strings.ReplaceAll(tr, "@", tag)
	if strings.HasPrefix(c.text, "fx(v=1") {
		tr = strings.TrimSpace("c(1) " + tr)
	} else if strings.HasPrefix(c.text, "fx(v=0") {
		tr = strings.TrimSpace("c(0) " + tr)
	}
	text := c25Defs + "SELECT " + call + " AS r FROM scope()"
	switch form {
	case 2:
		text = c25Defs + "LET IF = " + call + " SELECT IF AS r FROM scope()"
	case 3:
		text = c25Defs + "LET IF(p) = SELECT " + call + " AS r FROM scope() SELECT * FROM IF(p=1)"
	case 4:
		text = c25Defs + "SELECT dict(r=" + call + ").r AS r FROM scope()"
	case 5:
		text = c25Defs + "SELECT " + call + " AS r FROM scope() WHERE 1"
	case 6:
		text = c25Defs + "LET M(p) = p SELECT M(p=" + call + ") AS r FROM scope()"
	}
	rows := e.query(text)
	settle(t, "if")
	if len(rows) != 1 {
		t.Fail("rows", "%s: %d rows", text, len(rows))
		return
	}
	v, _ := rows[0].Get("r")
	expect(t, "if", text, show(v), show(want))
	if form < 2 {
		// (What a definition evaluates how often is another matter.)
		expect(t, "if:trace", text, e.takeTrace(), tr)
	} else {
		got := e.takeTrace()
		other := "T"
		if c.want {
			other = "E"
		}
		for _, f := range strings.Fields(got) {
			if strings.Contains(f, other) {
				t.Fail("if:lazy", "%s: %s is evaluated", text, f)
			}
		}
	}
	if l := e.errorLogs(); len(l) > 0 && !strings.Contains(text, "nosuch") {
		t.Fail("if:log", "%s: logs %q", text, l)
	}
	t.Sig("%s %v", show(v), c.want)
}

// c25Source are sources of rows: text, rows, notes, and whether something is
// logged.
type c25Source struct {
	text  string
	rows  []*ordereddict.Dict
	trace string
}

var c25Sources = []c25Source{
	{"{ SELECT i FROM gen(n=2, name='@') }", []*ordereddict.Dict{D("i", int64(0)), D("i", int64(1))}, "open-@ @0 @1"},
	{"{ SELECT i, fx(v=i, n='@') AS x FROM gen(n=3) WHERE i = 1 }", []*ordereddict.Dict{D("i", int64(1), "x", int64(1))}, "open- @(1)"},
	{"{ SELECT i FROM gen(n=0, name='@') }", nil, "open-@"},
	{"q@", []*ordereddict.Dict{D("i", int64(0))}, "open-q@ q@0"},
	{"lv", []*ordereddict.Dict{D("a", int64(1)), D("b", int64(2))}, ""},
	{"lm", []*ordereddict.Dict{D("a", int64(3))}, ""},
	{"em", nil, ""},
	{"NULL", nil, ""},
	{"sv2", []*ordereddict.Dict{D("a", int64(9))}, ""},
	{"(1, 2)", []*ordereddict.Dict{D("_value", int64(1)), D("_value", int64(2))}, ""},
	{"5", []*ordereddict.Dict{D("_value", int64(5))}, ""},
	{"p@(x=2)", []*ordereddict.Dict{D("i", int64(2))}, ""},
	{"if(condition=1, then=q@)", []*ordereddict.Dict{D("i", int64(0))}, "open-q@ q@0"},
	{"{ SELECT * FROM chain(z=q@, a={ SELECT 1 AS k FROM scope() }) }", []*ordereddict.Dict{D("i", int64(0)), D("k", int64(1))}, "open-q@ q@0"},
	{"{ SELECT * FROM if(condition=0, then=q@, else={ SELECT 2 AS k FROM scope() }) }", []*ordereddict.Dict{D("k", int64(2))}, ""},
	{"{ SELECT * FROM range(start=1, end=3) }", []*ordereddict.Dict{D("_value", int64(1)), D("_value", int64(2))}, ""},
}

func c25SourceDefs(tags ...string) string {
	s := "LET lm <= SELECT i + 3 AS a FROM gen(n=1) LET em <= SELECT i FROM gen(n=0) "
	for _, t := range tags {
		s += fmt.Sprintf("LET q%s = SELECT i FROM gen(n=1, name='q%s') LET p%s(x) = SELECT x AS i FROM scope() ", t, t, t)
	}
	return s
}

func c25SourceEnv(t *T) *Env {
	return newEnv(t).set("t", true).set("f", false).set("sv", c25Item).set("lv", []types.Row{D("a", int64(1)), D("b", int64(2))}).set("sv2", D("a", int64(9)))
}

// c25Rows runs statements; the notes of the definitions are dropped.
func (e *Env) c25Rows(defs, text string) (string, string) {
	e.query(defs)
	e.takeTrace()
	rows := e.query(text)
	settle(e.t, text)
	return showRows(rows), e.takeTrace()
}

func c25IfRows(t *T, ci, ti, ei int) {
	c, none := c25Cond[ci], c25Source{}
	th, el := none, none
	args := "condition=" + c.text
	if ti >= 0 {
		th = c25Sources[ti]
		args += ", then=" + strings.ReplaceAll(th.text, "@", "T")
	}
	if ei >= 0 {
		el = c25Sources[ei]
		args += ", else=" + strings.ReplaceAll(el.text, "@", "E")
	}
	e := c25SourceEnv(t)
	text := "SELECT * FROM if(" + args + ")"
	rows, tr := e.c25Rows("LET df = 1 "+c25SourceDefs("T", "E"), text)
	want, tag := el, "E"
	if c.want {
		want, tag = th, "T"
	}
	wtr := strings.ReplaceAll(want.trace, "@", tag)
	wrows := showRows(want.rows)
	if ti < 0 {
		// (then is required.)
		wtr, wrows = "", ""
	}
	if strings.HasPrefix(c.text, "fx(v=1") {
		wtr = strings.TrimSpace("c(1) " + wtr)
	} else if strings.HasPrefix(c.text, "fx(v=0") {
		wtr = strings.TrimSpace("c(0) " + wtr)
	}
	expect(t, "if rows", text, rows, wrows)
	if ti >= 0 || !strings.HasPrefix(c.text, "fx") {
		expect(t, "if rows:trace", text, tr, wtr)
	}
	l := e.errorLogs()
	if ti < 0 && len(l) == 0 {
		t.Fail("if rows:silent", "%s: nothing is logged", text)
	}
	if ti >= 0 && len(l) > 0 && c.text != "nosuch" {
		t.Fail("if rows:log", "%s: logs %q", text, l)
	}
	t.Sig("%s", rows)
}

var c25ChainNames = [][]string{{"a", "b", "c"}, {"c", "b", "a"}, {"z", "`a b`", "A"}, {"b", "B", "a"}}

func c25Chain(t *T, seq []int, names []string, form int) {
	var args []string
	var rows []*ordereddict.Dict
	var tr []string
	var defs string
	for i, k := range seq {
		src, tag := c25Sources[k], string(rune('U'+i))
		args = append(args, names[i]+"="+strings.ReplaceAll(src.text, "@", tag))
		rows = append(rows, src.rows...)
		if src.trace != "" {
			tr = append(tr, strings.ReplaceAll(src.trace, "@", tag))
		}
		defs += c25SourceDefs(tag)
	}
	e := c25SourceEnv(t)
	text := "SELECT * FROM chain(" + strings.Join(args, ", ") + ")"
	if form == 1 {
		text = "LET P(x) = " + text + " SELECT * FROM P(x=1)"
	}
	got, gtr := e.c25Rows(defs+"LET df = 1", text)
	expect(t, "chain", text, got, showRows(rows))
	expect(t, "chain:trace", text, gtr, strings.Join(tr, " "))
	if l := e.errorLogs(); len(l) > 0 {
		t.Fail("chain:log", "%s: logs %q", text, l)
	}
	t.Sig("%s", got)
}

// c25Cells are cells with the elements they are flattened to (nil: the cell
// itself).
var c25Cells = []struct {
	text string
	v    any
	want []any
}{
	{"5", nil, []any{int64(5)}}, {"NULL", nil, []any{nil}}, {"'s'", nil, []any{"s"}}, {"", []any{}, []any{[]any{}}}, {"", []any{int64(1)}, []any{int64(1)}}, {"(1, 2)", nil, []any{int64(1), int64(2)}},
	{"", []string{"x", "y", "z"}, []any{"x", "y", "z"}}, {"", []any{D("k", int64(1)), D("k", int64(2))}, []any{D("k", int64(1)), D("k", int64(2))}}, {"dict(k=3)", nil, []any{D("k", int64(3))}},
	{"", []any{D("_value", int64(6)), int64(7)}, []any{int64(6), int64(7)}}, {"", []any{[]any{int64(1), int64(2)}, int64(3)}, []any{[]any{int64(1), int64(2)}, int64(3)}},
	{"{ SELECT i, 7 AS j FROM gen(n=2) }", nil, []any{D("i", int64(0), "j", int64(7)), D("i", int64(1), "j", int64(7))}}, {"qe", nil, []any{[]any{}}}, {"{ SELECT * FROM range(end=2) }", nil, []any{int64(0), int64(1)}},
	{"q", nil, []any{D("i", int64(0))}}, {"fx(v=(8, 9), n='x')", nil, []any{int64(8), int64(9)}}, {"", [2]int{4, 5}, []any{4, 5}}, {"", []types.Row{D("r", int64(1))}, []any{D("r", int64(1))}}, {"lz", nil, []any{int64(1), int64(2)}},
}

// c25FlattenRow: the first column varies fastest.
func c25FlattenRow(names []string, cells [][]any) []*ordereddict.Dict {
	rows := []*ordereddict.Dict{D()}
	if len(cells) == 0 {
		return rows
	}
	rows = nil
	n := len(cells) - 1
	for _, last := range cells[n] {
		for _, r := range c25FlattenRow(names[:n], cells[:n]) {
			row := D()
			for _, i := range r.Items() {
				row.Set(i.Key, i.Value)
			}
			row.Set(names[n], last)
			rows = append(rows, row)
		}
	}
	return rows
}

func c25Flatten(t *T, seq []int, form int) {
	e := newEnv(t)
	names := []string{"c", "b", "a"}[:len(seq)]
	var cols []string
	var cells [][]any
	cell := D()
	for i, k := range seq {
		c := c25Cells[k]
		text := c.text
		if text == "" {
			text = fmt.Sprintf("v%d", i)
			e.set(text, c.v)
		}
		cols = append(cols, text+" AS "+names[i])
		cell.Set(names[i], c.v)
		cells = append(cells, c.want)
	}
	want := c25FlattenRow(names, cells)
	text := "SELECT * FROM flatten(query={ SELECT " + strings.Join(cols, ", ") + " FROM scope() })"
	switch form {
	case 1: // two rows
		text = "SELECT * FROM flatten(query={ SELECT " + strings.Join(cols, ", ") + " FROM gen(n=2) })"
		want = append(want, want...)
	case 2: // a stored query
		text = "LET Q = SELECT " + strings.Join(cols, ", ") + " FROM scope() SELECT * FROM flatten(query=Q)"
	case 3: // rows that exist already
		text = "LET Q <= SELECT " + strings.Join(cols, ", ") + " FROM scope() SELECT * FROM flatten(query=Q)"
	case 4: // twice, on one set of rows
		text = "LET Q <= SELECT " + strings.Join(cols, ", ") + " FROM scope() SELECT * FROM chain(a={ SELECT * FROM flatten(query=Q) }, b={ SELECT * FROM flatten(query=Q) })"
		want = append(want, want...)
	}
	e.query("LET q = SELECT i FROM gen(n=1) LET qe = SELECT i FROM gen(n=0) LET lz = (1, 2)")
	rows := e.query(text)
	settle(t, text)
	what := text
	for i, k := range seq {
		if c25Cells[k].text == "" {
			what += fmt.Sprintf(" [v%d=%s]", i, show(c25Cells[k].v))
		}
	}
	expect(t, "flatten", what, showRows(rows), showRows(want))
	if l := e.errorLogs(); len(l) > 0 {
		t.Fail("flatten:log", "%s: logs %q", what, l)
	}
	t.Sig("%s", showRows(rows))
}

// c25Lambda checks a lambda: names of its parameters, its expression, the
// values given, and what comes out.
type c25LambdaT struct {
	text   string
	params []string
	want   func(p []any) any
}

func c25Lambdas() []c25LambdaT {
	at := func(i int) func(p []any) any { return func(p []any) any { return p[i] } }
	add := func(p []any) any { return []any{p[0], p[1]} }
	k := func(v any) func(p []any) any { return func([]any) any { return v } }
	return []c25LambdaT{
		{"x => x", []string{"x"}, at(0)}, {"x=>x", []string{"x"}, at(0)}, {"x => 1", []string{"x"}, k(int64(1))}, {"x => (x)", []string{"x"}, at(0)},
		{"x,y => x", []string{"x", "y"}, at(0)}, {"x,y=>y", []string{"x", "y"}, at(1)}, {"x, y => (x, y)", []string{"x", "y"}, add}, {"y, x => (x, y)", []string{"y", "x"}, func(p []any) any { return []any{p[1], p[0]} }},
		{"a, b, c => dict(a=a, b=b, c=c)", []string{"a", "b", "c"}, func(p []any) any { return D("a", p[0], "b", p[1], "c", p[2]) }}, {"`a b` => `a b`", []string{"a b"}, at(0)}, {"`x`, `y z` => x", []string{"x", "y z"}, at(0)}, {"`x`, `y z` => `y z`", []string{"x", "y z"}, at(1)},
		{"x => out", []string{"x"}, k("outer")}, {"out => out", []string{"out"}, at(0)}, {"x => nosuch", []string{"x"}, k(nil)}, {"x => if(condition=x, then='yes', else='no')", []string{"x"}, func(p []any) any {
			if mBool(mval(p[0])) {
				return "yes"
			}
			return "no"
		}},
		{"x => x.k", []string{"x"}, func(p []any) any {
			if d, ok := p[0].(*ordereddict.Dict); ok {
				v, _ := d.Get("k")
				return v
			}
			if l, ok := p[0].([]any); ok {
				return c25Members(l, "k")
			}
			return nil
		}},
		{"x => def", []string{"x"}, k(int64(3))}, {"x => twice(v=x)", []string{"x"}, at(0)}, {"x => NOT x", []string{"x"}, func(p []any) any { return !mBool(mval(p[0])) }}, {"x /* c */ => x", []string{"x"}, at(0)}, {"/* c */ x => x", []string{"x"}, at(0)}, {"x => x -- c", []string{"x"}, at(0)}, {"x => x = x", []string{"x"}, func(p []any) any { return mEq(mval(p[0]), mval(p[0])) }},
		{"x => fx(v=x, n='l')", []string{"x"}, at(0)}, {"x => x AND TRUE", []string{"x"}, func(p []any) any { return mBool(mval(p[0])) }},
	}
}

func c25LambdaCheck(t *T, li int, args []any) {
	l := c25Lambdas()[li]
	lam, err := vfilter.ParseLambda(l.text)
	if err != nil {
		t.Fail("lambda:parse", "%s: %v", l.text, err)
		return
	}
	what := fmt.Sprintf("(%s)(%s)", l.text, show(args))
	expect(t, "lambda:params", l.text, fmt.Sprintf("%q", lam.GetParameters()), fmt.Sprintf("%q", l.params))
	e := newEnv(t).set("out", "outer")
	e.query("LET def = 3 LET twice(v) = v")
	var given []vfilter.Any
	for _, a := range args {
		given = append(given, a)
	}
	before := len(e.scope.GetMembers(e.scope))
	for i := 0; i < 2; i++ {
		got := lazyless(bg, e.scope, lam.Reduce(bg, e.scope, given))
		logs := e.errorLogs()
		e.lmu.Lock()
		e.logs = nil
		e.lmu.Unlock()
		if len(args) != len(l.params) {
			expect(t, "lambda:count", what, show(got), "NULL")
			if len(logs) == 0 {
				t.Fail("lambda:silent", "%s: a wrong number of arguments is not reported", what)
			}
		} else {
			if want := l.want(args); want != nil {
				expect(t, "lambda", what, show(got), show(want))
			} else {
				expect(t, "lambda", what, show(got), "NULL")
			}
			if len(logs) > 0 && !strings.Contains(l.text, "nosuch") && !strings.Contains(l.text, ".k") {
				t.Fail("lambda:log", "%s: logs %q", what, logs)
			}
		}
		for _, p := range l.params {
			if v, pres := e.scope.Resolve(p); pres && p != "out" {
				t.Fail("lambda:leak", "%s: afterwards %s is %s", what, p, show(v))
			}
		}
		if v, _ := e.scope.Resolve("out"); show(v) != `"outer"` {
			t.Fail("lambda:leak", "%s: afterwards out is %s", what, show(v))
		}
		if n := len(e.scope.GetMembers(e.scope)); n != before {
			t.Fail("lambda:leak", "%s: %d variables, %d before", what, n, before)
		}
		settle(t, what)
	}
	t.Sig("%s %d", l.text, len(args))
}

// c25Calls are functions and plugins with valid arguments.
type c25CallT struct {
	name   string
	plugin bool
	args   []string // name=text
	// The arguments have to be given.
	required []string
	// Any name can be given.
	free bool
}

var c25All = []c25CallT{
	{"len", false, []string{"list=(1, 2)"}, []string{"list"}, false},
	{"split", false, []string{"string='a,b'", "sep=','", "sep_string=','"}, []string{"string"}, false},
	{"encode", false, []string{"string='a'", "type='hex'"}, []string{"string", "type"}, false},
	{"timestamp", false, []string{"epoch=1", "winfiletime=1"}, nil, false},
	{"get", false, []string{"item=dict(a=1)", "member='a'"}, []string{"member"}, false},
	{"format", false, []string{"format='%v'", "args=1"}, []string{"format"}, false},
	{"dict", false, []string{"a=1"}, nil, true},
	{"if", false, []string{"condition=1", "then=2", "else=3"}, []string{"condition"}, false},
	{"count", false, []string{"items=1"}, nil, false},
	{"sum", false, []string{"item=1"}, []string{"item"}, false},
	{"min", false, []string{"item=1"}, []string{"item"}, false},
	{"max", false, []string{"item=1"}, []string{"item"}, false},
	{"enumerate", false, []string{"items=1"}, nil, false},
	{"scope", false, nil, nil, true},
	{"range", true, []string{"start=0", "end=2", "step=1"}, []string{"end"}, false},
	{"flatten", true, []string{"query={ SELECT 1 AS a FROM scope() }"}, []string{"query"}, false},
	{"chain", true, []string{"a={ SELECT 1 AS a FROM scope() }", "b=(1, )"}, nil, true},
	{"if", true, []string{"condition=1", "then={ SELECT 1 AS a FROM scope() }", "else={ SELECT 1 AS a FROM scope() }"}, []string{"condition", "then"}, false},
	{"foreach", true, []string{"row={ SELECT 1 AS a FROM scope() }", "query={ SELECT a FROM scope() }", "async=FALSE", "workers=1", "column=''"}, []string{"row"}, false},
	{"scope", true, nil, nil, true},
}

func (c *c25CallT) text(args []string) string {
	s := c.name + "(" + strings.Join(args, ", ") + ")"
	if c.plugin {
		return "SELECT * FROM " + s
	}
	return "SELECT " + s + " AS r FROM scope()"
}

// c25Sweep replaces one argument by any value.
func c25Sweep(t *T, c *c25CallT, i int, name string, v any) {
	for form := 0; form < 3; form++ {
		e := newEnv(t).set("v", v)
		args := append([]string{}, c.args...)
		n, _, _ := strings.Cut(args[i], "=")
		args[i] = n + "=v"
		switch form {
		case 1:
			args[i] = n + "=fx(v=v)"
		case 2:
			args = []string{args[i]}
		}
		text := c.text(args)
		if c.plugin {
			text += " LIMIT 10"
		}
		rows := e.query(text)
		settle(t, text+" with "+name)
		if !c.plugin && len(rows) != 1 {
			t.Fail("rows", "%s with %s: %d rows", text, name, len(rows))
		}
		if l := e.errorLogs(); len(l) > 0 {
			t.Sig("%s", trunc(l[0], 20))
			// What is reported as wrong is not used.
			if !c.plugin && len(rows) == 1 && strings.HasPrefix(l[0], c.name+":") {
				r, _ := rows[0].Get("r")
				expect(t, "sweep", text+" with "+name+" logs "+l[0], show(r), "NULL")
			}
		}
		t.Sig("%s", trunc(showRows(rows), 40))
	}
}

// c25Subset gives a subset of the arguments, and possibly one that does not
// exist.
func c25Subset(t *T, c *c25CallT, mask int, unknown bool) {
	e := newEnv(t)
	var args []string
	given := map[string]bool{}
	for i, a := range c.args {
		if mask&(1<<i) != 0 {
			args = append(args, a)
			n, _, _ := strings.Cut(a, "=")
			given[n] = true
		}
	}
	bad := unknown && !c.free
	for _, r := range c.required {
		if !given[r] {
			bad = true
		}
	}
	if unknown {
		args = append(args, "nosucharg=1")
	}
	text := c.text(args)
	if bad && c.plugin {
		text += " LIMIT 10"
	}
	rows := e.query(text)
	settle(t, text)
	l := e.errorLogs()
	if bad && len(l) == 0 {
		t.Fail("args:silent", "%s: nothing is logged", text)
	}
	if !bad && len(l) > 0 && !(c.name == "split" && !given["sep"] && !given["sep_string"]) {
		t.Fail("args:log", "%s: logs %q", text, l)
	}
	if bad {
		if c.plugin {
			expect(t, "args", text, showRows(rows), "")
		} else if len(rows) == 1 {
			r, _ := rows[0].Get("r")
			expect(t, "args", text, show(r), "NULL")
		}
	}
	t.Sig("%s %v", showRows(rows), bad)
}

// c25Columns: the rows of a foreach with a column are the values of that
// column, and nothing else of the row is seen.
func c25Columns(t *T, seq []int) {
	type st struct{ A, D int64 }
	kinds := []struct {
		row  *ordereddict.Dict
		a, d string
		all  string
	}{
		{D("c", D("a", int64(1)), "a", int64(8), "d", int64(9)), "1", "NULL", "{a:1}"},
		{D("c", D("d", int64(2), "a", int64(3)), "a", int64(8), "d", int64(9)), "3", "2", "{d:2,a:3}"},
		{D("c", types.Null{}, "a", int64(8), "d", int64(9)), "NULL", "NULL", "{}"},
		{D("c", nil, "a", int64(8), "d", int64(9)), "NULL", "NULL", "{}"},
		{D("a", int64(8), "d", int64(9)), "NULL", "NULL", "{}"},
		{D("c", D(), "a", int64(8), "d", int64(9)), "NULL", "NULL", "{}"},
	}
	var rows []types.Row
	var all, some []string
	for _, i := range seq {
		rows = append(rows, kinds[i].row)
		all = append(all, kinds[i].all)
		some = append(some, fmt.Sprintf("{a:%s,d:%s}", kinds[i].a, kinds[i].d))
	}
	e := newEnv(t)
	e.scope.AppendPlugins(vfilter.GenericListPlugin{PluginName: "src", Function: listRows(func() []types.Row { return rows })})
	e.set("a", types.Null{})
	e.set("d", types.Null{})
	e.query("LET M <= SELECT * FROM src()")
	for _, from := range []string{"{ SELECT * FROM src() }", "src", "M"} {
		if from == "src" {
			e.query("LET src = SELECT * FROM src()")
		}
		q := "SELECT * FROM foreach(row=" + from + ", column='c')"
		expect(t, "rows", fmt.Sprint(q, seq), showRows(e.query(q)), strings.Join(all, ";"))
		for _, w := range []string{"", ", workers=1", ", workers=2"} {
			q := "SELECT * FROM foreach(row=" + from + ", column='c'" + w + ", query={ SELECT a, d FROM scope() })"
			got, want := strings.Split(showRows(e.query(q)), ";"), append([]string(nil), some...)
			if w == ", workers=2" {
				sort.Strings(got)
				sort.Strings(want)
			}
			expect(t, "query", fmt.Sprint(q, seq), strings.Join(got, ";"), strings.Join(want, ";"))
		}
	}
	e.set("N", nil)
	expect(t, "nil", "dict", show(e.eval("dict(a=N, b=1, c=NULL)")), "{a:NULL,b:1,c:NULL}")
	settle(t, fmt.Sprint(seq))
	t.Sig("%v", all)
}

func init() {
	register(&Prop{
		ID:    "C25",
		Level: "model_checking",
		Rule:  "each function and plugin gives, for each combination of arguments in each way of passing them, what its definition says; missing and wrong arguments are logged and give NULL or no rows",
		Suites: []Suite{
			{
				Name: "sizes", NoRace: true, Steps: 1 << 30,
				Bound: "lists of n = 0..34 and around 50, 64, 100, 128, 200, 256 and 300 (thorough: 0..300 and around 512, 1000 and 1024) items and strings of them in 18 calls",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 0, y, sizeFunctions) }),
			},
			{
				Name: "elements", NoRace: true,
				Bound: "foreach over all lists of up to 3 elements of 10 kinds (empty dicts and lists, NULL, nil, zero values), direct, as a member and nested",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					seqs(10, 0, 3, func(s []int) bool {
						s = append([]int(nil), s...)
						return y(Case{fmt.Sprint(s), func(t *T) { c25Elements(t, s) }})
					})
				}),
			},
			{
				Name: "columns", NoRace: true,
				Bound: "foreach over all sequences of up to 3 rows whose column is a dict, a struct, NULL, nil or missing, with and without a query, 1 and 2 workers; dict() and free form arguments of nil",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					seqs(6, 0, 3, func(s []int) bool {
						s = append([]int(nil), s...)
						return y(Case{fmt.Sprint(s), func(t *T) { c25Columns(t, s) }})
					})
				}),
			},
			{
				Name:  "functions",
				Bound: "len, split, encode, timestamp, get, format, dict and range: all combinations of their arguments from domains of up to 45 values (missing, NULL, of each kind, literals and variables) x 5 ways of passing them; compared with a definition written in Go",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					fs := c25Functions()
					for i := range fs {
						if !fs[i].cases(y) {
							return
						}
					}
				}),
			},
			{
				Name:  "if()",
				Bound: "21 conditions x 20 x 20 branches (missing, NULL, constants, calls, definitions, queries, nested) of the function, written in 7 ways; the value and what is evaluated",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for ci := range c25Cond {
						for ti := range c25Branch {
							for ei := range c25Branch {
								forms := []int{(ci + ti + ei) % 7}
								if tier == Thorough {
									forms = []int{0, 1, 2, 3, 4, 5, 6}
								}
								for _, form := range forms {
									if !y(Case{fmt.Sprintf("if(%s, %s, %s) form %d", c25Cond[ci].text, c25Branch[ti].text, c25Branch[ei].text, form), func(t *T) { c25If(t, ci, ti, ei, form) }}) {
										return
									}
								}
							}
						}
					}
				}),
			},
			{
				Name:  "if rows",
				Bound: "21 conditions x 17 x 17 sources (missing, queries, stored queries, lists, NULL, constants) of the plugin; rows, what is evaluated and what is logged",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for ci := range c25Cond {
						for ti := -1; ti < len(c25Sources); ti++ {
							for ei := -1; ei < len(c25Sources); ei++ {
								if !y(Case{fmt.Sprintf("if %d %d %d", ci, ti, ei), func(t *T) { c25IfRows(t, ci, ti, ei) }}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "chain",
				Bound: "all sequences of up to 3 of 16 sources, 4 sets of names; rows in the order of the arguments, one source after the other",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					seqs(len(c25Sources), 0, 3, func(s []int) bool {
						s = append([]int{}, s...)
						sum := len(s)
						for _, k := range s {
							sum += k
						}
						return y(Case{fmt.Sprintf("chain %v", s), func(t *T) { c25Chain(t, s, c25ChainNames[sum%4], sum/4%2) }})
					})
				}),
			},
			{
				Name:  "flatten",
				Bound: "rows of up to 3 columns over 19 kinds of cells (thorough: all triples; quick: all pairs and triples over 10), 5 ways of giving the query",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					n := len(c25Cells)
					seqs(n, 1, 3, func(s []int) bool {
						sum := 0
						for _, k := range s {
							sum += k
							if len(s) == 3 && tier == Quick && k%2 == 1 {
								return true
							}
						}
						s = append([]int{}, s...)
						for form := 0; form < 5; form++ {
							if len(s) == 3 && tier == Quick && sum/2%5 != form {
								continue
							}
							if !y(Case{fmt.Sprintf("flatten %v form %d", s, form), func(t *T) { c25Flatten(t, s, form) }}) {
								return false
							}
						}
						return true
					})
				}),
			},
			{
				Name:  "lambdas",
				Bound: "26 lambdas with 0 to 4 arguments from 8 values, called twice in one scope",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := []any{nil, true, int64(2), 1.5, "s", []any{int64(1)}, D("k", int64(4)), int64(0)}
					for li, l := range c25Lambdas() {
						if !seqs(len(vals), 0, 4, func(s []int) bool {
							if len(s) > 1 && len(s) != len(l.params) {
								for _, k := range s[1:] {
									if k != s[0] {
										return true
									}
								}
							}
							var args []any
							for _, k := range s {
								args = append(args, vals[k])
							}
							return y(Case{fmt.Sprintf("(%s)(%s)", l.text, show(args)), func(t *T) { c25LambdaCheck(t, li, args) }})
						}) {
							return
						}
					}
				}),
			},
			{
				Name:  "any argument",
				Bound: "each argument of all 20 functions and plugins replaced by each of 88 Go values (given directly, by a function, without the other arguments): nothing panics or hangs, what is reported gives NULL",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					vals := c22Vals()
					for ci := range c25All {
						for i := range c25All[ci].args {
							for k := range vals {
								if c25All[ci].name == "flatten" && vals[k].name == "time" {
									// (The product of everything its methods return.)
									continue
								}
								if strings.HasPrefix(c25All[ci].args[i], "workers") && (vals[k].f > 1000 || vals[k].kind == "stringer") {
									// (As many goroutines.)
									continue
								}
								if !y(Case{fmt.Sprintf("%s %s %s", c25All[ci].name, c25All[ci].args[i], vals[k].name), func(t *T) { c25Sweep(t, &c25All[ci], i, vals[k].name, c22Vals()[k].v) }}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "subsets of arguments",
				Bound: "each subset of the arguments of all 20 functions and plugins, with and without an unknown one: missing required and unknown arguments are logged and give NULL or no rows",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for ci := range c25All {
						for mask := 0; mask < 1<<len(c25All[ci].args); mask++ {
							for u := 0; u < 2; u++ {
								if !y(Case{fmt.Sprintf("%s %b %d", c25All[ci].name, mask, u), func(t *T) { c25Subset(t, &c25All[ci], mask, u == 1) }}) {
									return
								}
							}
						}
					}
				}),
			},
		},
	})
}
