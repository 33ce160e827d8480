package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

// A query over rows that come at certain times.
type c23Source struct {
	text string
	// Pauses before each row in milliseconds (gen(name='S')).
	pauses []int
	// The source sends that many rows.
	n int
}

type c23Opt struct {
	max, wait int
	// The consumer pauses so long before each packet.
	slow int
	// Encoder calls that fail (bit mask).
	fail int
	// Cancelled after so long, or when the source produces its row number
	// at (1..).
	cancel, at int
}

type c23Packet struct {
	rows []string
	cols []string
	at   int64
	res  *vfilter.VFilterJsonResult
}

var errC23 = errors.New("encoder fails")

func c23Now() int64 { return vsched.Now().UnixMilli() }

// c23Run reads all packets and checks them.
func c23Run(t *T, text string, pauses []int, want []*ordereddict.Dict, o c23Opt) {
	e := newEnv(t)
	ctx, stop := context.WithCancel(bg)
	defer stop()
	produced := map[string]int64{}
	e.hook = func(name string, i int64) {
		if int(i) < len(pauses) {
			vsched.Sleep(time.Duration(pauses[i]) * time.Millisecond)
		}
		e.mu.Lock()
		produced[fmt.Sprint(i)] = c23Now()
		e.mu.Unlock()
		if int(i)+1 == o.at {
			stop()
		}
	}
	ctx2 := ctx
	if o.cancel > 0 {
		var c func()
		ctx2, c = context.WithTimeout(ctx, time.Duration(o.cancel)*time.Millisecond)
		defer c()
	}
	stmts := mustParse(t, text)
	for _, s := range stmts[:len(stmts)-1] {
		collect(bg, e.scope, s)
	}
	calls := 0
	enc := func(rows []vfilter.Row) ([]byte, error) {
		calls++
		if o.fail>>(calls-1)&1 == 1 {
			return nil, errC23
		}
		var l []string
		for _, r := range rows {
			l = append(l, show(r))
		}
		return json.Marshal(l)
	}
	var got []c23Packet
	for res := range vfilter.GetResponseChannel(stmts[len(stmts)-1], ctx2, e.scope, enc, o.max, o.wait) {
		p := c23Packet{res: res, cols: res.Columns, at: c23Now()}
		if err := json.Unmarshal(res.Payload, &p.rows); err != nil {
			t.Fail("payload", "%s: payload %q: %v", text, res.Payload, err)
		}
		got = append(got, p)
		if o.slow > 0 {
			vsched.Sleep(time.Duration(o.slow) * time.Millisecond)
		}
	}
	cancelled := ctx2.Err() != nil
	stop()
	settle(t, text)
	e.mu.Lock()
	live := e.live
	e.mu.Unlock()
	if live != 0 {
		t.Fail("live", "%s: %d sources are still running", text, live)
	}
	c17Opened(t, e)
	k := 0
	var sig []string
	for i, p := range got {
		sig = append(sig, fmt.Sprint(len(p.rows)))
		if p.res.Part != i {
			t.Fail("part", "%s: packet %d is part %d", text, i, p.res.Part)
		}
		if p.res.TotalRows != len(p.rows) {
			t.Fail("total", "%s: packet %d says %d rows and has %d", text, i, p.res.TotalRows, len(p.rows))
		}
		if len(p.rows) > o.max && o.max > 0 && o.fail == 0 {
			t.Fail("max", "%s: packet %d has %d rows, at most %d", text, i, len(p.rows), o.max)
		}
		if len(p.rows) == 0 && i < len(got)-1 && o.max > 0 && o.fail == 0 {
			t.Fail("empty", "%s: packet %d of %d has no rows", text, i, len(got))
		}
		for j, r := range p.rows {
			if k >= len(want) {
				t.Fail("rows", "%s: row %s after the last", text, r)
				return
			}
			w := show(want[k])
			if r != w {
				t.Fail("rows", "%s: row %d is %s, want %s (packets %s)", text, k, r, w, join(sig))
				return
			}
			if j == 0 {
				expect(t, "columns", fmt.Sprintf("%s: columns of packet %d", text, i), fmt.Sprintf("%q", p.cols), fmt.Sprintf("%q", want[k].Keys()))
			}
			// Rows are not kept for longer than max_wait.
			if at, pres := produced[fmt.Sprint(k)]; pres && o.wait > 0 && o.slow == 0 && o.fail == 0 && len(pauses) > 0 && !cancelled {
				if p.at-at > int64(o.wait)*1000 {
					t.Fail("late", "%s: row %d produced at %d ms came at %d ms (max_wait %d s)", text, k, at, p.at, o.wait)
				}
			}
			k++
		}
	}
	if !cancelled && o.fail == 0 && k != len(want) {
		t.Fail("rows", "%s: %d rows in packets of %s, want %d", text, k, join(sig), len(want))
	}
	if o.fail != 0 {
		failed := 0
		for i := 0; i < calls; i++ {
			failed += o.fail >> i & 1
		}
		if failed > 0 && !e.hasLog(errC23.Error()) {
			t.Fail("silent", "%s: the encoder's error is not reported", text)
		}
		// What could not be encoded is not skipped silently: the rows
		// before it and after it are whole packets.
		if failed == 0 && !cancelled && k != len(want) {
			t.Fail("rows", "%s: %d rows in packets of %s, want %d", text, k, join(sig), len(want))
		}
	}
	t.Sig("%s", join(sig))
}

// c23Want evaluates the query by itself.
func c23Want(t *T, text string) []*ordereddict.Dict {
	e := newEnv(t)
	return e.query(text)
}

var c23Texts = []string{
	"SELECT i FROM gen(n=$, name='S')",
	"SELECT i, i + 1 AS j, fx(v=i) AS `k k` FROM gen(n=$, name='S')",
	"SELECT * FROM gen(n=$, name='S')",
	"SELECT i, dict(a=i, b={ SELECT i FROM gen(n=2) }) AS d, (i, 's') AS l, NULL AS z FROM gen(n=$, name='S')",
	"SELECT i, count() AS c FROM gen(n=$, name='S') GROUP BY i",
	"SELECT i FROM gen(n=$, name='S') ORDER BY i DESC",
	"SELECT i FROM gen(n=100, name='S') LIMIT $",
	"SELECT * FROM foreach(row={ SELECT i FROM gen(n=$, name='S') }, query={ SELECT i FROM gen(n=2) })",
	"LET X = SELECT i, 1 AS b FROM gen(n=$, name='S') SELECT * FROM X",
	"LET X <= SELECT i, 1 AS b FROM gen(n=$, name='S') SELECT b, i FROM X",
	"SELECT if(condition=i = 1, then=dict(x=1)) AS d FROM gen(n=$, name='S')",
	"EXPLAIN SELECT i FROM gen(n=$, name='S')",
	"SELECT * FROM chain(a={ SELECT i FROM gen(n=$, name='S') }, b={ SELECT 5 AS q FROM scope() })",
}

func init() {
	register(&Prop{
		ID:    "C23",
		Level: "model_checking",
		Rule:  "the rows of all packets are the query's rows in order (when cancelled, the first of them), packets are numbered from 0, hold at most the requested number of rows, tell their number and columns, come within max_wait, and the channel is closed at the end",
		Suites: []Suite{
			{
				Name: "packets", Policies: 2,
				Bound: "13 queries x 0..6 rows x packet sizes 1..4, 7 and 0 x max_wait 1, 0 and 100 s",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, q := range c23Texts {
						for n := 0; n < 7; n++ {
							text := strings.Replace(q, "$", fmt.Sprint(n), 1)
							for _, max := range []int{1, 2, 3, 4, 7, 0} {
								for _, wait := range []int{1, 100, 0} {
									if !y(Case{fmt.Sprintf("max %d wait %d %s", max, wait, text), func(t *T) {
										c23Run(t, text, nil, c23Want(t, text), c23Opt{max: max, wait: wait})
									}}) {
										return
									}
								}
							}
						}
					}
				}),
			},
			{
				Name: "pauses", Policies: 2, NoRace: true,
				Bound: "0..4 rows with pauses of 0, 600, 1000 or 2500 ms before each x packet sizes 1..3 x max_wait 1 and 2 s x slow and fast consumers, complete and cancelled after 700, 1000, 1700 and 4000 ms",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					ms := []int{0, 600, 1000, 2500}
					text := "SELECT i FROM gen(n=%d, name='S')"
					seqs(len(ms), 0, 4, func(s []int) bool {
						if len(s) == 4 && tier == Quick && (s[0]+s[1]*2+s[2]+s[3])%3 != 0 {
							return true
						}
						var p []int
						for _, i := range s {
							p = append(p, ms[i])
						}
						text := fmt.Sprintf(text, len(p))
						for max := 1; max < 4; max++ {
							for _, wait := range []int{1, 2} {
								for _, slow := range []int{0, 800, 3000} {
									for _, cancel := range []int{0, 700, 1000, 1700, 4000} {
										if cancel > 0 && slow == 800 {
											continue
										}
										if !y(Case{fmt.Sprintf("pauses %v max %d wait %d slow %d cancel %d", p, max, wait, slow, cancel), func(t *T) {
											c23Run(t, text, p, c23Want(t, text), c23Opt{max: max, wait: wait, slow: slow, cancel: cancel})
										}}) {
											return false
										}
									}
								}
							}
						}
						return true
					})
				}),
			},
			{
				Name:     "cancelled",
				Bound:    "13 queries over 4 rows cancelled when row 1..4 is produced x packet sizes 1..3",
				Policies: 2,
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, q := range c23Texts {
						text := strings.Replace(q, "$", "4", 1)
						// (What a nested or grouped query gives when it is
						// cancelled is not specified.)
						if strings.Contains(text, "<=") || strings.Contains(text, "b={ SELECT i") || strings.Contains(text, " BY ") {
							continue
						}
						for max := 1; max < 4; max++ {
							for at := 1; at < 5; at++ {
								if !y(Case{fmt.Sprintf("at row %d max %d %s", at, max, text), func(t *T) {
									c23Run(t, text, nil, c23Want(t, text), c23Opt{max: max, wait: 1, at: at})
								}}) {
									return
								}
							}
						}
					}
				}),
			},
			{
				Name:  "encoder",
				Bound: "an encoder that fails on any subset of its first 5 calls x 0..4 rows x packet sizes 1..3, with a pause or without",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for fail := 1; fail < 32; fail++ {
						for n := 0; n < 5; n++ {
							for max := 1; max < 4; max++ {
								for _, p := range [][]int{nil, {0, 1500, 0, 1500}} {
									text := fmt.Sprintf("SELECT i FROM gen(n=%d, name='S')", n)
									if !y(Case{fmt.Sprintf("fail %05b max %d %v %s", fail, max, p, text), func(t *T) {
										c23Run(t, text, p, c23Want(t, text), c23Opt{max: max, wait: 1, fail: fail})
									}}) {
										return
									}
								}
							}
						}
					}
				}),
			},
			{
				Name:  "OutputJSON",
				Bound: "13 queries x 0..6 rows, complete, cancelled at each row and with a failing encoder; packets and all rows are the same",
				Gen: cases(func(tier Tier, y func(Case) bool) {
					for _, q := range c23Texts {
						for n := 0; n < 7; n++ {
							text := strings.Replace(q, "$", fmt.Sprint(n), 1)
							for at := 0; at <= n+1; at++ {
								if at > 0 && (strings.Contains(text, "<=") || strings.Contains(text, "b={ SELECT i")) {
									continue
								}
								if !y(Case{fmt.Sprintf("cancel %d %s", at, text), func(t *T) { c23Output(t, text, at, n) }}) {
									return
								}
							}
						}
					}
				}),
			},
		},
		Scenarios: func() []Scenario {
			var res []Scenario
			add := func(name, text string, p []int, o c23Opt, early bool, quick int) {
				res = append(res, Scenario{
					Name: fmt.Sprintf("%s: max %d wait %d slow %d cancel %d pauses %v %s", name, o.max, o.wait, o.slow, o.cancel, p, text), Quick: quick, Thorough: quick + 1, Policies: 2, RaceBase: true,
					EarlyTimers: early, MaxTimers: 12, MaxSteps: 20000,
					Body: func(t *T) {
						c23Run(t, text, p, c23Want(t, text), o)
					},
				})
			}
			for n := 0; n < 5; n++ {
				for max := 1; max < 4; max++ {
					text := fmt.Sprintf("SELECT i FROM gen(n=%d, name='S')", n)
					// The flush timer fires at any moment.
					q := 1
					if n < 2 && max == 1 {
						q = 2
					}
					add("timer", text, nil, c23Opt{max: max, wait: 1}, true, q)
					if n > 1 {
						add("cancel", text, nil, c23Opt{max: max, wait: 2, cancel: 1000}, true, q)
						add("cancel", text, nil, c23Opt{max: max, wait: 1, cancel: 2000}, true, q)
						add("pauses", text, []int{1000, 0, 1000, 0, 1000}, c23Opt{max: max, wait: 1}, false, q)
						add("slow", text, []int{0, 1000, 0, 1000}, c23Opt{max: max, wait: 1, slow: 1000}, false, q)
					}
				}
			}
			for _, q := range c23Texts[3:9] {
				for max := 1; max < 4; max++ {
					add("queries", strings.Replace(q, "$", "3", 1), nil, c23Opt{max: max, wait: 1}, true, 1)
				}
			}
			return res
		},
	})
}

// c23Output checks OutputJSON.
func c23Output(t *T, text string, at, n int) {
	want := c23Want(t, text)
	e := newEnv(t)
	ctx, stop := context.WithCancel(bg)
	defer stop()
	e.hook = func(name string, i int64) {
		if int(i)+1 == at {
			stop()
		}
	}
	stmts := mustParse(t, text)
	for _, s := range stmts[:len(stmts)-1] {
		collect(bg, e.scope, s)
	}
	calls := 0
	var rows []string
	enc := func(r []vfilter.Row) ([]byte, error) {
		calls++
		for _, x := range r {
			d, ok := x.(*ordereddict.Dict)
			if !ok {
				t.Fail("output-row", "%s: a %T", text, x)
				return nil, nil
			}
			for _, i := range d.Items() {
				if _, ok := i.Value.(types.LazyExpr); ok {
					t.Fail("output-lazy", "%s: %s is not evaluated", text, i.Key)
				}
			}
			rows = append(rows, show(d))
		}
		if at == n+1 {
			return nil, errC23
		}
		return []byte(fmt.Sprint(len(r))), nil
	}
	out, err := vfilter.OutputJSON(stmts[len(stmts)-1], ctx, e.scope, enc)
	cancelled := ctx.Err() != nil
	stop()
	settle(t, text)
	c17Opened(t, e)
	if calls != 1 {
		t.Fail("output-calls", "%s: the encoder is called %d times", text, calls)
	}
	if at == n+1 {
		if err != errC23 {
			t.Fail("output-error", "%s: OutputJSON returns the error %v", text, err)
		}
		return
	}
	if err != nil || string(out) != fmt.Sprint(len(rows)) {
		t.Fail("output", "%s: OutputJSON returns %q, %v", text, out, err)
	}
	var w []string
	for _, d := range want {
		w = append(w, show(d))
	}
	if cancelled {
		if strings.Contains(text, "GROUP") || strings.Contains(text, "ORDER") {
			return
		}
		if len(rows) > len(w) || join(rows) != join(w[:len(rows)]) {
			t.Fail("output-rows", "%s, cancelled at row %d: %v are not the first of %v", text, at, rows, w)
		}
		t.Sig("%d", len(rows))
		return
	}
	expect(t, "output-rows", text, join(rows), join(w))
	t.Sig("%d", len(rows))
}
