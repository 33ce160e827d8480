// The explorer: exhaustive bounded enumeration of inputs, programs, histories
// and schedules over the instrumented code under test.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"iter"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"PKG/vsched"
)

type Failure struct {
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	Suite   string   `json:"suite"`
	Index   int      `json:"index"`
	Case    string   `json:"case"`
	Devs    [][2]int `json:"devs,omitempty"`
	MapRev  bool     `json:"map_reverse,omitempty"`
	Policy  int      `json:"policy,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Sched   bool     `json:"schedule,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Outcome string   `json:"outcome,omitempty"`
}

type SuiteStat struct {
	Name       string   `json:"name"`
	Sched      bool     `json:"schedule"`
	Cases      int      `json:"cases"`
	Evals      int      `json:"evaluations"`
	Done       bool     `json:"complete"`
	BoundDone  int      `json:"bound_completed"`
	BoundAsked int      `json:"bound_asked"`
	Points     int      `json:"choice_points"`
	MaxThreads int      `json:"max_threads"`
	Steps      int      `json:"steps"`
	States     int      `json:"states"`
	Outcomes   int      `json:"distinct_outcomes"`
	Diverged   int      `json:"diverged"`
	Samples    []string `json:"samples"`
	Bound      string   `json:"bound"`
}

type WorkerOut struct {
	Failures []Failure   `json:"failures"`
	Suites   []SuiteStat `json:"suites"`
	Level    string      `json:"level"`
	Rule     string      `json:"rule"`
	Assume   []string    `json:"assumptions"`
	Error    string      `json:"error"`
	RaceRun  bool        `json:"race"`
}

// Case is one bounded input, program or history.
type Case struct {
	Name string
	Run  func(t *T)
}

// Suite enumerates cases completely.
type Suite struct {
	Name  string
	Bound string
	Gen   func(tier Tier) iter.Seq[Case]
	// Also run with reversed map iteration order.
	BothMapOrders bool
	// Skip in the race pass.
	NoRace bool
	// A case that takes more steps hangs (default suiteSteps).
	Steps int
	// Every case is run under this many base schedules (default 1).
	Policies int
	// Compares a run with the one under the first base schedule and map order.
	Same func(t, base *T)
}

func (s *Suite) steps() int {
	if s.Steps > 0 {
		return s.Steps
	}
	return suiteSteps
}

// Scenario is a small concurrent program whose schedules are enumerated.
type Scenario struct {
	Name        string
	EarlyTimers bool
	MaxSteps    int
	MaxTimers   int
	// Deviation bounds asked for.
	Quick, Thorough int
	Body            func(t *T)
	// Weight of the time budget (default 1).
	Weight float64
	// Deviations are counted from this many base schedules (default 1).
	Policies int
	// Compares an execution with the one of the first base schedule.
	Same func(t, base *T)
	// Deviate only at operations on objects that threads of several groups
	// (vsched.SetGroup) use.
	Groups bool
	// In the race pass of the quick tier, base schedules only.
	RaceBase bool
	// Only explored in the race pass / never in it.
	RaceOnly, NoRace bool
	// A panic that reaches the top of a goroutine, a deadlock etc. is a
	// failure unless listed here.
	Allow func(r *vsched.Result) bool
}

type Tier int

const (
	Quick Tier = iota
	Thorough
)

type Prop struct {
	ID        string
	Level     string
	Rule      string
	Assume    []string
	Suites    []Suite
	Scenarios func() []Scenario
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T collects the observations of one execution.
type T struct {
	Case    string
	fails   []Failure
	sigs    []string
	trivial bool
	// For Same.
	data any
}

// Fail records a violation. key identifies the failing behaviour.
func (t *T) Fail(key, f string, a ...any) {
	if len(t.fails) < 10 {
		t.fails = append(t.fails, Failure{Key: key, Msg: fmt.Sprintf(f, a...)})
	}
}

// Sig records the observed outcome.
func (t *T) Sig(f string, a ...any) {
	if len(a) == 0 {
		t.sigs = append(t.sigs, f)
		return
	}
	t.sigs = append(t.sigs, fmt.Sprintf(f, a...))
}

// Trivial marks an execution that says nothing.
func (t *T) Trivial() { t.trivial = true }

var (
	fProp   = flag.String("prop", "", "")
	fTier   = flag.String("tier", "quick", "")
	fShard  = flag.String("shard", "0/1", "")
	fBudget = flag.Int("budget", 20, "")
	fOut    = flag.String("out", "", "")
	fReplay = flag.String("replay", "", "")
	fSuite  = flag.String("suite", "", "")
	fSeed   = flag.Int("seed", 1, "")
)

type worker struct {
	prop     *Prop
	tier     Tier
	shard    int
	nshards  int
	out      WorkerOut
	hashes   map[uint64]struct{}
	progress *os.File
	nleaks   int
}

func (w *worker) place(suite string, idx int, name string, devs []vsched.Dev, rev, sched bool, policy int) {
	if w.progress == nil {
		return
	}
	d, _ := json.Marshal(devPairs(devs))
	if len(name) > 2000 {
		name = name[:2000]
	}
	name = strings.NewReplacer("\t", " ", "\n", " ").Replace(name)
	s := fmt.Sprintf("%s\t%d\t%s\t%s\t%v\t%v\t%d\t", suite, idx, name, d, rev, sched, policy)
	w.progress.WriteAt([]byte(s), 0)
	w.progress.Truncate(int64(len(s)))
}

func devPairs(d []vsched.Dev) [][2]int {
	r := [][2]int{}
	for _, x := range d {
		r = append(r, [2]int{int(x.At), int(x.Alt)})
	}
	return r
}

func pairsDev(d [][2]int) []vsched.Dev {
	var r []vsched.Dev
	for _, x := range d {
		r = append(r, vsched.Dev{At: int32(x[0]), Alt: int32(x[1])})
	}
	return r
}

func main() {
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	p := props[*fProp]
	w := &worker{prop: p, hashes: map[uint64]struct{}{}}
	if p == nil {
		w.out.Error = "unknown property " + *fProp
		w.write()
		return
	}
	if *fTier == "thorough" {
		w.tier = Thorough
	}
	w.out.Level, w.out.Rule, w.out.Assume = p.Level, p.Rule, p.Assume
	w.out.RaceRun = vsched.RaceBuild
	if *fReplay != "" {
		w.replay(*fReplay)
		w.write()
		return
	}
	fmt.Sscanf(*fShard, "%d/%d", &w.shard, &w.nshards)
	w.progress, _ = os.Create(*fOut + ".progress")
	w.runAll()
	w.write()
}

func (w *worker) write() {
	b, _ := json.Marshal(&w.out)
	if *fOut == "" {
		os.Stdout.Write(b)
		return
	}
	hb := make([]byte, 0, len(w.hashes)*8)
	for h := range w.hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(*fOut+".hashes", hb, 0o644)
	os.WriteFile(*fOut, b, 0o644)
}

func (w *worker) runAll() {
	deadline := time.Now().Add(time.Duration(*fBudget) * time.Second)
	var scs []Scenario
	if w.prop.Scenarios != nil {
		for _, s := range w.prop.Scenarios() {
			if vsched.RaceBuild && s.NoRace || !vsched.RaceBuild && s.RaceOnly {
				continue
			}
			if *fSuite != "" && !strings.HasPrefix(s.Name, *fSuite) {
				continue
			}
			scs = append(scs, s)
		}
	}
	suiteShare := 1.0
	if len(scs) > 0 {
		suiteShare = 0.5
	}
	sdl := time.Now().Add(time.Duration(float64(*fBudget) * suiteShare * float64(time.Second)))
	for i := range w.prop.Suites {
		s := &w.prop.Suites[i]
		if vsched.RaceBuild && s.NoRace {
			continue
		}
		if *fSuite != "" && !strings.HasPrefix(s.Name, *fSuite) {
			continue
		}
		w.runSuite(s, sdl)
	}
	total := 0.0
	for _, s := range scs {
		total += weight(&s)
	}
	type part struct {
		s      *Scenario
		i, p   int
		base   *T
		stat   int
		budget time.Duration
	}
	var again []part
	for i := range scs {
		s := &scs[i]
		left := time.Until(deadline)
		if left < 0 {
			left = 0
		}
		share := time.Duration(float64(left) * weight(s) / total)
		total -= weight(s)
		n := max(s.Policies, 1)
		var base *T
		for p := 0; p < n; p++ {
			budget := share / time.Duration(n)
			b := w.explore(s, i, time.Now().Add(budget), p, base)
			if k := len(w.out.Suites) - 1; !w.out.Suites[k].Done && len(w.out.Failures) == 0 {
				again = append(again, part{s, i, p, base, k, budget})
			}
			base = b
		}
	}
	// What the others left over of the time goes to those that did not
	// complete their bound.
	for k, a := range again {
		share := time.Until(deadline) / time.Duration(len(again)-k)
		if share < 2*a.budget || len(w.out.Failures) > 0 {
			continue
		}
		w.explore(a.s, a.i, time.Now().Add(share), a.p, a.base)
		last := len(w.out.Suites) - 1
		if w.out.Suites[last].BoundDone >= w.out.Suites[a.stat].BoundDone {
			w.out.Suites[a.stat] = w.out.Suites[last]
		}
		w.out.Suites = w.out.Suites[:last]
	}
}

func weight(s *Scenario) float64 {
	if s.Weight == 0 {
		return 1
	}
	return s.Weight
}

func (w *worker) hash(suite string, t *T) {
	if t.trivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(suite))
	h.Write([]byte(t.Case))
	for _, s := range t.sigs {
		h.Write([]byte{0})
		h.Write([]byte(s))
	}
	if len(w.hashes) < 4_000_000 {
		w.hashes[h.Sum64()] = struct{}{}
	}
}

func (w *worker) fail(f Failure) {
	if p := os.Getenv("VF_ALL"); p != "" {
		// For debugging: all failures, not just some of each kind.
		if h, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintf(h, "%s\t%s\t%s\t%s\n", f.Suite, f.Key, f.Case, trunc(f.Msg, 300))
			h.Close()
		}
	}
	n := 0
	for i := range w.out.Failures {
		if w.out.Failures[i].Key == f.Key {
			n++
		}
	}
	if n >= 2 || len(w.out.Failures) >= 40 {
		return
	}
	w.out.Failures = append(w.out.Failures, f)
}

func outcomeFailure(res *vsched.Result) *Failure {
	if res.Outcome == vsched.OK || res.Outcome == vsched.Diverged {
		return nil
	}
	key := res.Outcome.String()
	if res.Outcome == vsched.Panicked {
		key += ":" + normPanic(res.Msg)
	}
	st := res.Stack
	if len(st) > 12000 {
		st = st[:12000]
	}
	return &Failure{Key: key, Msg: res.Outcome.String() + ": " + res.Msg, Stack: st, Outcome: res.Outcome.String()}
}

func normPanic(s string) string {
	if i := strings.Index(s, ": "); i > 0 {
		s = s[i+2:]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return '#'
		}
		if r <= ' ' {
			return '_'
		}
		return r
	}, s)
}

// one runs a case or scenario once; the returned failures carry the place.
func (w *worker) one(suite string, idx int, name string, body func(*T), devs []vsched.Dev, o vsched.Options, sched bool, allow func(*vsched.Result) bool, same func(t, base *T), base *T) (*T, *vsched.Result) {
	t := &T{Case: name}
	re := vsched.RaceErrors()
	res := vsched.Run(func() { body(t) }, devs, o)
	if f := outcomeFailure(res); f != nil && (allow == nil || !allow(res)) {
		t.fails = append(t.fails, *f)
	}
	if n := vsched.RaceErrors(); n > re {
		t.fails = append(t.fails, Failure{Key: "data-race:" + suite, Msg: "the race detector reported a data race in this schedule"})
	}
	if same != nil && res.Outcome == vsched.OK {
		if base == nil {
			base = t
		}
		same(t, base)
	}
	for i := range t.fails {
		f := &t.fails[i]
		f.Suite, f.Index, f.Case = suite, idx, name
		f.Devs = devPairs(devs)
		f.MapRev = o.MapReverse
		f.Policy = o.Policy
		f.Sched = sched
		f.Trace = res.Trace
	}
	return t, res
}

func (w *worker) runSuite(s *Suite, deadline time.Time) {
	st := SuiteStat{Name: s.Name, Bound: s.Bound, Done: true}
	outcomes := map[string]struct{}{}
	idx := -1
	lastPlace := time.Time{}
	for c := range s.Gen(w.tier) {
		idx++
		st.Cases++
		if idx%w.nshards != w.shard {
			continue
		}
		now := time.Now()
		if now.After(deadline) {
			st.Done = false
			break
		}
		_ = lastPlace
		var base *T
		for v := 0; v < 2*max(s.Policies, 1); v++ {
			if v&1 == 1 && !s.BothMapOrders {
				continue
			}
			w.place(s.Name, idx, c.Name, nil, v&1 == 1, false, v>>1)
			t, res := w.one(s.Name, idx, c.Name, c.Run, nil, vsched.Options{MapReverse: v&1 == 1, Policy: v >> 1, MaxSteps: s.steps()}, false, nil, s.Same, base)
			if base == nil {
				base = t
			}
			st.Evals++
			st.Steps += res.Steps
			if res.Threads > st.MaxThreads {
				st.MaxThreads = res.Threads
			}
			for _, f := range t.fails {
				w.fail(f)
			}
			w.hash(s.Name, t)
			if len(outcomes) < 100000 {
				outcomes[strings.Join(t.sigs, "|")] = struct{}{}
			}
			if len(st.Samples) < 3 && !t.trivial {
				st.Samples = append(st.Samples, trunc(c.Name+" => "+strings.Join(t.sigs, "|"), 300))
			}
			if res.Outcome != vsched.OK {
				w.nleaks++
			}
		}
		if len(w.out.Failures) >= 30 || w.nleaks > 200 {
			st.Done = false
			break
		}
	}
	st.Outcomes = len(outcomes)
	st.States = st.Evals
	w.out.Suites = append(w.out.Suites, st)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type item struct {
	devs []vsched.Dev
	hash uint64 // of the choice points up to and including the last deviation
}

// explore enumerates all schedules of a scenario by increasing number of
// deviations from the default schedule.
func (w *worker) explore(s *Scenario, idx int, deadline time.Time, policy int, base *T) *T {
	st := SuiteStat{Name: s.Name, Sched: true, Done: true, BoundDone: -1}
	if policy > 0 {
		st.Name = fmt.Sprintf("%s [base schedule %d]", s.Name, policy)
	}
	maxd := s.Quick
	if w.tier == Thorough {
		maxd = s.Thorough
		if maxd == 0 {
			maxd = s.Quick + 1
		}
	}
	if vsched.RaceBuild && s.RaceBase && w.tier == Quick {
		maxd = 0
	}
	st.BoundAsked = maxd
	if maxd == 0 && idx%w.nshards != w.shard {
		// Nothing to share with the other shards.
		st.BoundDone = 0
		st.Bound = fmt.Sprintf("all schedules with at most 0 deviations from base schedule %d", policy)
		w.out.Suites = append(w.out.Suites, st)
		return base
	}
	states := &vsched.StateSet{Max: 3_000_000}
	outcomes := map[string]int{}
	opts := vsched.Options{MaxSteps: s.MaxSteps, EarlyTimers: s.EarlyTimers, MaxTimers: s.MaxTimers, States: states, Policy: policy}
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 50000
	}
	level := []item{{}}
	nfail := 0
	for d := 0; d <= maxd && len(level) > 0; d++ {
		var next []item
		complete := true
		for _, it := range level {
			if (st.Evals > 0 && time.Now().After(deadline)) || nfail >= 4 {
				complete = false
				break
			}
			w.place(s.Name, idx, "", it.devs, false, true, policy)
			t, res := w.one(s.Name, idx, "", s.Body, it.devs, opts, true, s.Allow, s.Same, base)
			if base == nil && d == 0 {
				base = t
			}
			if res.Outcome == vsched.Diverged || (len(it.devs) > 0 && prefixHash(res.Points, int(it.devs[len(it.devs)-1].At)) != it.hash) {
				st.Diverged++
				continue
			}
			if d > 0 || w.shard == 0 || maxd == 0 {
				st.Evals++
				st.Steps += res.Steps
				st.Points += len(res.Points)
			}
			if res.Threads > st.MaxThreads {
				st.MaxThreads = res.Threads
			}
			if len(t.fails) > 0 {
				nfail++
				for _, f := range t.fails {
					w.fail(f)
				}
			}
			t.Case = ""
			outcomes[strings.Join(t.sigs, "|")]++
			w.hash(s.Name, t)
			if d < maxd && res.Outcome == vsched.OK {
				from := 0
				if len(it.devs) > 0 {
					from = int(it.devs[len(it.devs)-1].At) + 1
				}
				h := uint64(0)
				for i := range res.Points {
					p := &res.Points[i]
					h = hashPoint(h, p)
					if i < from {
						continue
					}
					if p.Kind == 0 && p.Obj >= 0 && !res.Shared(p.Obj) {
						continue
					}
					if p.Obj == -2 {
						continue
					}
					if s.Groups && (p.Kind != 0 || !res.CrossGroup(p.Obj)) {
						continue
					}
					for alt := int32(1); alt < p.N; alt++ {
						if d == 0 {
							// Shard on the first deviation.
							k := (i*7 + int(alt)) % w.nshards
							if k != w.shard {
								continue
							}
						}
						nd := make([]vsched.Dev, len(it.devs)+1)
						copy(nd, it.devs)
						nd[len(it.devs)] = vsched.Dev{At: int32(i), Alt: alt}
						next = append(next, item{nd, h})
					}
				}
				if len(next) > 6_000_000 {
					complete = false
					break
				}
			}
		}
		if !complete {
			st.Done = false
			break
		}
		st.BoundDone = d
		level = next
		if len(next) == 0 {
			// The whole schedule space is covered.
			st.BoundDone = maxd
		}
	}
	st.States = states.N
	st.Outcomes = len(outcomes)
	st.Cases = len(outcomes)
	var keys []string
	for k := range outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		if i < 4 {
			st.Samples = append(st.Samples, trunc(fmt.Sprintf("outcome x%d: %s", outcomes[k], k), 300))
		}
	}
	st.Bound = fmt.Sprintf("all schedules with at most %d deviations from base schedule %d", st.BoundDone, policy)
	w.out.Suites = append(w.out.Suites, st)
	return base
}

// hashPoint leaves out the choice taken (a parent and its child differ there).
func hashPoint(h uint64, p *vsched.Point) uint64 {
	h ^= p.Hash + 0x9e3779b97f4a7c15 + uint64(p.N)<<3 + uint64(p.Kind)
	h *= 0xff51afd7ed558ccd
	return h ^ h>>29
}

func prefixHash(ps []vsched.Point, last int) uint64 {
	h := uint64(0)
	for i := 0; i <= last && i < len(ps); i++ {
		h = hashPoint(h, &ps[i])
	}
	return h
}

func (w *worker) replay(path string) {
	b, err := os.ReadFile(path)
	var f Failure
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		w.out.Error = err.Error()
		return
	}
	w.nshards = 1
	found := false
	if f.Sched {
		for i, s := range w.prop.Scenarios() {
			if s.Name != f.Suite {
				continue
			}
			found = true
			o := vsched.Options{MaxSteps: s.MaxSteps, EarlyTimers: s.EarlyTimers, MaxTimers: s.MaxTimers}
			if o.MaxSteps == 0 {
				o.MaxSteps = 50000
			}
			// (The race detector reports a race once: this execution first.)
			ob := o
			o.Policy, o.Trace = f.Policy, true
			t, res := w.one(s.Name, i, "", s.Body, pairsDev(f.Devs), o, true, s.Allow, nil, nil)
			if s.Same != nil && res.Outcome == vsched.OK {
				base, _ := w.one(s.Name, i, "", s.Body, nil, ob, true, s.Allow, nil, nil)
				s.Same(t, base)
			}
			w.out.Failures = append(w.out.Failures, t.fails...)
		}
	} else {
		for i := range w.prop.Suites {
			s := &w.prop.Suites[i]
			if s.Name != f.Suite {
				continue
			}
			idx := -1
			for c := range s.Gen(w.tier) {
				idx++
				if idx != f.Index {
					continue
				}
				found = true
				t, res := w.one(s.Name, idx, c.Name, c.Run, nil, vsched.Options{MapReverse: f.MapRev, Policy: f.Policy, MaxSteps: s.steps(), Trace: true}, false, nil, nil, nil)
				if s.Same != nil && res.Outcome == vsched.OK {
					base, _ := w.one(s.Name, idx, c.Name, c.Run, nil, vsched.Options{MaxSteps: s.steps()}, false, nil, nil, nil)
					s.Same(t, base)
				}
				w.out.Failures = append(w.out.Failures, t.fails...)
				break
			}
		}
	}
	if !found {
		w.out.Error = "no such case: " + f.Suite
	}
	for i := range w.out.Failures {
		g := &w.out.Failures[i]
		g.Suite, g.Index, g.Case, g.Devs, g.MapRev, g.Policy, g.Sched = f.Suite, f.Index, f.Case, f.Devs, f.MapRev, f.Policy, f.Sched
		if len(w.out.Failures[i].Trace) > 400 {
			w.out.Failures[i].Trace = w.out.Failures[i].Trace[:400]
		}
	}
}

var _ = runtime.GC

// suiteSteps is where a sequential case counts as hanging.
const suiteSteps = 1000000
