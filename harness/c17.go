package main

import (
	"fmt"
	"strings"
	"sync"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/types"
)

// A destructor that was added to a scope.
type c17Dtor struct {
	id       int
	scope    int
	kind     string
	accepted bool
	runs     int
	seq      int // when it ran (last)
	// The close that was going on when it was added, or 0.
	during int
}

type c17World struct {
	t        *T
	mu       sync.Mutex
	real     []types.Scope
	parent   []int
	closed   []bool
	closing  []bool
	dtors    []*c17Dtor
	seq      int
	closes   int
	inClose  int
	trace    []string
	retriesN int
}

func newC17(t *T) *c17World {
	return &c17World{t: t, real: []types.Scope{vfilter.NewScope()}, parent: []int{-1}, closed: []bool{false}, closing: []bool{false}}
}

func (w *c17World) at(i int) types.Scope {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.real[i]
}

func (w *c17World) up(i int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.parent[i]
}

func (w *c17World) copyOf(i int) int {
	c := w.at(i).Copy()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.real = append(w.real, c)
	w.parent = append(w.parent, i)
	w.closed = append(w.closed, false)
	w.closing = append(w.closing, false)
	return len(w.real) - 1
}

func (w *c17World) ran(d *c17Dtor) {
	w.mu.Lock()
	d.runs++
	w.seq++
	d.seq = w.seq
	w.mu.Unlock()
}

func (w *c17World) add(i int, kind string) *c17Dtor {
	w.mu.Lock()
	d := &c17Dtor{id: len(w.dtors), scope: i, kind: kind, during: w.inClose}
	w.dtors = append(w.dtors, d)
	w.mu.Unlock()
	err := w.at(i).AddDestructor(func() {
		w.ran(d)
		switch {
		case kind == "readd":
			w.add(i, "plain")
		case strings.HasPrefix(kind, "again"):
			var n int
			fmt.Sscanf(kind, "again%d", &n)
			if n > 0 {
				w.add(i, fmt.Sprintf("again%d", n-1))
			}
		case kind == "child":
			// Uses a child that it leaves behind.
			c := w.copyOf(i)
			w.add(c, "plain")
		case kind == "closedchild":
			c := w.copyOf(i)
			w.add(c, "plain")
			w.at(c).Close()
		case kind == "self":
			w.at(i).Close()
		case kind == "parent":
			if p := w.up(i); p >= 0 {
				w.add(p, "plain")
			}
		case kind == "use":
			s := w.at(i)
			s.AppendVars(D("x", int64(1)))
			if v, ok := s.Resolve("x"); !ok || show(v) != "1" {
				w.t.Fail("use", "a destructor cannot use its scope")
			}
			s.Log("closing")
			s.GetMembers(D("x", 1))
			s.SetContext("x", 1)
			l, _ := vfilter.ParseLambda("a => a + x")
			if got := show(l.Reduce(bg, s, []vfilter.Any{int64(1)})); got != "2" {
				w.t.Fail("use", "a destructor evaluates 1 + x to %s", got)
			}
			rows := collect(bg, s, c17Query)
			if showRows(rows) != "{a:1}" {
				w.t.Fail("use", "a destructor's query gives %s", showRows(rows))
			}
		}
	})
	d.accepted = err == nil
	return d
}

var c17Query, _ = vfilter.Parse("SELECT x AS a FROM range(start=0, end=1, step=1)")

func (w *c17World) under(i, a int) bool {
	for ; i >= 0; i = w.parent[i] {
		if i == a {
			return true
		}
	}
	return false
}

func (w *c17World) close(i int) {
	if !w.closed[i] {
		w.closes++
	}
	before := make([]int, len(w.dtors))
	for j, d := range w.dtors {
		before[j] = d.runs
	}
	scopes := len(w.real)
	w.inClose = w.closes
	w.at(i).Close()
	w.inClose = 0
	// Scopes that did exist are closed.
	for j := 0; j < scopes; j++ {
		if w.under(j, i) {
			w.closed[j] = true
		}
	}
	for j := scopes; j < len(w.real); j++ {
		if w.under(j, i) {
			w.closed[j] = true
		}
	}
	_ = before
}

// check verifies that everything accepted ran once if its scope is closed and
// never otherwise.
func (w *c17World) check(final bool) bool {
	bad := func(key, f string, a ...any) bool {
		w.t.Fail(key, "after %s: %s", strings.Join(w.trace, ", "), fmt.Sprintf(f, a...))
		return false
	}
	for _, d := range w.dtors {
		want := 0
		if d.accepted && w.closed[d.scope] {
			want = 1
		}
		if d.runs != want {
			return bad("once", "destructor %d (%s) of scope %d ran %d times, want %d", d.id, d.kind, d.scope, d.runs, want)
		}
	}
	for i, s := range w.real {
		// Scopes that a destructor left behind are not asked.
		if s.IsClosed() != w.closed[i] {
			return bad("closed", "scope %d IsClosed is %v, want %v", i, s.IsClosed(), w.closed[i])
		}
	}
	// Later ones before earlier ones, children before parents.
	for _, a := range w.dtors {
		for _, b := range w.dtors {
			if a.runs == 0 || b.runs == 0 || a.during != 0 || b.during != 0 {
				continue
			}
			if a.scope == b.scope && a.id < b.id && a.seq < b.seq {
				return bad("order", "destructor %d of scope %d ran before the later %d", a.id, a.scope, b.id)
			}
			if a.scope != b.scope && w.under(b.scope, a.scope) && a.seq < b.seq {
				return bad("order", "destructor %d of scope %d ran before %d of its child %d", a.id, a.scope, b.id, b.scope)
			}
		}
	}
	return true
}

var c17Kinds = []string{"plain", "readd", "child", "closedchild", "self", "parent", "use"}

// c17Enum enumerates all sequences of operations after a prefix.
func c17Enum(t *T, prefix [][2]int, depth, kinds int) {
	// Operations: 0 copy, 1 close, 2.. add of a kind.
	n := 0
	var rec func(seq [][2]int)
	rec = func(seq [][2]int) {
		w := newC17(t)
		for _, o := range seq {
			op, s := o[0], o[1]
			switch {
			case op == 0:
				w.trace = append(w.trace, fmt.Sprintf("copy %d", s))
				w.copyOf(s)
			case op == 1:
				w.trace = append(w.trace, fmt.Sprintf("close %d", s))
				w.close(s)
			default:
				k := c17Kinds[op-2]
				w.trace = append(w.trace, fmt.Sprintf("add %s to %d", k, s))
				d := w.add(s, k)
				if d.accepted == w.closed[s] {
					t.Fail("accept", "after %s: accepted=%v by a scope with closed=%v", strings.Join(w.trace, ", "), d.accepted, w.closed[s])
					return
				}
			}
			if !w.check(false) {
				return
			}
		}
		n++
		if len(t.fails) > 3 {
			return
		}
		scopes := len(w.real)
		closed := append([]bool{}, w.closed...)
		if len(seq) == depth {
			// In the end the root is closed.
			w.trace = append(w.trace, "close 0")
			w.close(0)
			w.check(true)
			return
		}
		for op := 0; op < 2+kinds; op++ {
			for s := 0; s < scopes; s++ {
				if op == 0 && (closed[s] || scopes >= 4) {
					continue
				}
				rec(append(seq[:len(seq):len(seq)], [2]int{op, s}))
			}
		}
	}
	rec(prefix)
	t.Sig("%d sequences", n)
}

// c17Accepted checks after a schedule that ran to its end that every accepted
// destructor ran once and no other.
func (w *c17World) accepted(closed func(i int) bool) {
	for _, d := range w.dtors {
		want := 0
		if d.accepted && closed(d.scope) {
			want = 1
		}
		if d.runs != want {
			w.t.Fail("once", "destructor %d (%s) of scope %d: accepted=%v and ran %d times", d.id, d.kind, d.scope, d.accepted, d.runs)
		}
		w.t.Sig("%v", d.accepted)
	}
}

func c17All(int) bool { return true }

// par runs functions in goroutines of their own and waits for all of them.
func par(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

var _ = vsched.Quiesce

func init() {
	register(&Prop{
		ID:    "C17",
		Level: "model_checking",
		Rule:  "in every sequence and schedule an accepted destructor runs exactly once, refused ones never; order is checked for destructors added before the close",
		Suites: []Suite{
			{
				Name: "many children", NoRace: true, Steps: 1 << 30,
				Bound: "0 to 40 children with grandchildren of which none, every other, the first or second half or all are closed before as many more are made; the root is closed",
				Gen:   cases(func(tier Tier, y func(Case) bool) { sizeCases(tier, 40, y, sizeScopes) }),
			},
			{
				Name:   "sequences",
				Bound:  "all sequences of up to 5 (thorough 6) operations (copy, close, add one of 7 kinds of destructors) on up to 4 scopes",
				Steps:  1 << 30,
				NoRace: true,
				Gen: cases(func(tier Tier, y func(Case) bool) {
					depth := 5
					if tier == Thorough {
						depth = 6
					}
					kinds := len(c17Kinds)
					for a := 0; a < 2+kinds; a++ {
						for b := 0; b < 2+kinds; b++ {
							for c := 0; c < 2+kinds; c++ {
								scopes := 1
								if a == 0 {
									scopes++
								}
								for sb := 0; sb < scopes; sb++ {
									sc := scopes
									if b == 0 {
										sc++
									}
									for s := 0; s < sc; s++ {
										if a == 1 && b == 0 || (a == 1 || b == 1) && c == 0 {
											continue
										}
										if !y(Case{fmt.Sprintf("%d %d:%d %d:%d", a, b, sb, c, s), func(t *T) {
											c17Enum(t, [][2]int{{a, 0}, {b, sb}, {c, s}}, depth, kinds)
										}}) {
											return
										}
									}
								}
							}
						}
					}
				}),
			},
			{
				Name:   "rescheduling",
				NoRace: true,
				Bound:  "destructors that add themselves again up to 14 times: each that is accepted runs",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for n := 0; n < 15; n++ {
						for m := 0; m < 3; m++ {
							if !y(Case{fmt.Sprintf("again %d with %d others", n, m), func(t *T) {
								w := newC17(t)
								c := 0
								if m > 0 {
									c = w.copyOf(0)
								}
								if m > 1 {
									w.add(0, "plain")
									w.add(c, "plain")
								}
								w.add(c, fmt.Sprintf("again%d", n))
								w.at(0).Close()
								w.accepted(c17All)
								ran := 0
								for _, d := range w.dtors {
									ran += d.runs
								}
								// A few retries are always possible.
								if n <= 5 && ran < n+1 {
									t.Fail("retries", "a destructor that adds itself %d times ran %d times", n, ran)
								}
								settle(t, "close")
							}}) {
								return
							}
						}
					}
				}),
			},
			{
				Name:   "throttler and queries",
				Bound:  "destructors added by 14 queries are run once by the query or by the close of the scope",
				NoRace: true,
				Gen:    cases(c17Queries),
			},
		},
		Scenarios: func() []Scenario {
			return []Scenario{
				{Name: "add and close", Quick: 3, Thorough: 5, Weight: 2, Body: func(t *T) {
					w := newC17(t)
					par(func() { w.add(0, "plain"); w.add(0, "plain") }, func() { w.at(0).Close() })
					w.accepted(c17All)
				}},
				{Name: "add, add and close", Quick: 2, Thorough: 4, Body: func(t *T) {
					w := newC17(t)
					w.add(0, "plain")
					par(func() { w.add(0, "plain") }, func() { w.add(0, "readd") }, func() { w.at(0).Close() })
					w.accepted(c17All)
				}},
				{Name: "add to a child and close", Quick: 2, Thorough: 4, Body: func(t *T) {
					w := newC17(t)
					c := w.copyOf(0)
					w.add(0, "plain")
					par(func() { w.add(c, "plain"); w.add(0, "plain") }, func() { w.at(0).Close() })
					w.accepted(c17All)
				}},
				{Name: "copy and close", Quick: 3, Thorough: 5, Weight: 2, Body: func(t *T) {
					w := newC17(t)
					free := false
					par(func() {
						c := w.copyOf(0)
						// A copy of a scope that is closed already is on its own.
						free = w.at(0).IsClosed()
						w.add(c, "plain")
						if free {
							w.at(c).Close()
						}
					}, func() { w.at(0).Close() })
					t.Sig("%v", free)
					w.accepted(c17All)
				}},
				{Name: "close twice at once", Quick: 2, Thorough: 4, Body: func(t *T) {
					w := newC17(t)
					c := w.copyOf(0)
					w.add(0, "plain")
					w.add(0, "readd")
					w.add(c, "plain")
					par(func() { w.at(0).Close() }, func() { w.at(0).Close() })
					w.accepted(c17All)
				}},
				{Name: "close a child and its parent", Quick: 2, Thorough: 4, Body: func(t *T) {
					w := newC17(t)
					c := w.copyOf(0)
					d := w.copyOf(c)
					w.add(0, "plain")
					w.add(c, "plain")
					w.add(d, "plain")
					par(func() { w.at(c).Close() }, func() { w.at(0).Close() }, func() { w.at(d).Close() })
					w.accepted(c17All)
				}},
				{Name: "close, copy and add in a destructor", Quick: 2, Thorough: 3, Body: func(t *T) {
					w := newC17(t)
					w.add(0, "child")
					c := w.copyOf(0)
					w.add(c, "parent")
					par(func() { w.at(0).Close() }, func() { w.at(c).Close() })
					w.accepted(c17All)
				}},
				{Name: "query and close", Quick: 1, Thorough: 2, Weight: 2, Body: func(t *T) {
					e := newEnv(t)
					q, _ := vfilter.Parse("SELECT i FROM gen(n=2, name='g')")
					par(func() {
						for range q.Eval(bg, e.scope.Copy()) {
						}
					}, func() { e.scope.Close() })
					settle(t, "query and close")
					c17Opened(t, e)
				}},
				{Name: "foreach and close", Quick: 1, Thorough: 2, Weight: 2, Body: func(t *T) {
					e := newEnv(t)
					q, _ := vfilter.Parse("SELECT * FROM foreach(row={ SELECT * FROM gen(n=2, name='g') }, query={ SELECT i FROM gen(n=1, name='h') })")
					par(func() {
						for range q.Eval(bg, e.scope) {
						}
					}, func() { e.scope.Close() })
					settle(t, "query and close")
					e.scope.Close()
					c17Opened(t, e)
				}},
			}
		},
	})
}

// c17Opened compares what was opened with what was closed.
func c17Opened(t *T, e *Env) {
	n := map[string]int{}
	for _, s := range strings.Fields(e.takeTrace()) {
		if strings.HasPrefix(s, "open-") {
			n[s[5:]]++
		}
	}
	e.mu.Lock()
	closed := append([]string(nil), e.closed...)
	e.mu.Unlock()
	for _, s := range closed {
		n[s]--
	}
	for k, v := range n {
		if v != 0 {
			t.Fail("opened", "destructors of %s accepted but not run: %d (negative: run too often)", k, v)
		}
	}
	t.Sig("%v", closed)
}

func c17Queries(tier Tier, y func(Case) bool) {
	for _, q := range []string{
		"SELECT * FROM gen(n=2, name='a')",
		"SELECT * FROM gen(n=-1, name='a') LIMIT 2",
		"SELECT * FROM gen(n=2, name='a') WHERE i = 7",
		"SELECT count() FROM gen(n=3, name='a') GROUP BY 1",
		"SELECT * FROM gen(n=3, name='a') ORDER BY i DESC LIMIT 1",
		"SELECT { SELECT * FROM gen(n=2, name='b') } AS b FROM gen(n=2, name='a')",
		"SELECT * FROM foreach(row={ SELECT * FROM gen(n=2, name='a') }, query={ SELECT * FROM gen(n=2, name='b') })",
		"SELECT * FROM foreach(row={ SELECT * FROM gen(n=2, name='a') }, query={ SELECT * FROM gen(n=2, name='b') }, workers=3)",
		"SELECT * FROM chain(a={ SELECT * FROM gen(n=2, name='a') }, b={ SELECT * FROM gen(n=2, name='b') })",
		"SELECT * FROM if(condition=1, then={ SELECT * FROM gen(n=2, name='a') })",
		"SELECT * FROM flatten(query={ SELECT * FROM gen(n=2, name='a') })",
		"LET X = SELECT * FROM gen(n=2, name='a') SELECT X.i AS c FROM X",
		"LET X(n) = SELECT * FROM gen(n=n, name='a') SELECT * FROM X(n=2)",
		"LET X <= SELECT * FROM gen(n=2, name='a') SELECT * FROM X WHERE i IN X.i",
	} {
		if !y(Case{q, func(t *T) {
			e := newEnv(t)
			thr := &c17Throttler{}
			e.scope.SetThrottler(thr)
			e.query(q)
			settle(t, "query")
			t.Sig("%d", len(e.closed))
			e.scope.Close()
			settle(t, "close")
			c17Opened(t, e)
			if thr.closed != 1 || thr.ops == 0 {
				t.Fail("throttler", "%s: the throttler was charged %d times and closed %d times", q, thr.ops, thr.closed)
			}
			e.scope.Close()
			if thr.closed != 1 {
				t.Fail("throttler", "%s: closing again closed the throttler again", q)
			}
		}}) {
			return
		}
	}
}

type c17Throttler struct {
	mu          sync.Mutex
	ops, closed int
}

func (s *c17Throttler) ChargeOp() { s.mu.Lock(); s.ops++; s.mu.Unlock() }
func (s *c17Throttler) Close()    { s.closed++ }
