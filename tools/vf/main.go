// Command vf drives one check: it instruments the current tree of /repo, builds
// the explorer from it, runs it in parallel shards, confirms failures by
// replaying them in fresh processes and writes the evidence file.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Failure struct {
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	Suite   string   `json:"suite"`
	Index   int      `json:"index"`
	Case    string   `json:"case"`
	Devs    [][2]int `json:"devs,omitempty"`
	MapRev  bool     `json:"map_reverse,omitempty"`
	Policy  int      `json:"policy,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Sched   bool     `json:"schedule,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Outcome string   `json:"outcome,omitempty"`
}

type SuiteStat struct {
	Name       string   `json:"name"`
	Sched      bool     `json:"schedule"`
	Cases      int      `json:"cases"`
	Evals      int      `json:"evaluations"`
	Done       bool     `json:"complete"`
	BoundDone  int      `json:"bound_completed"`
	BoundAsked int      `json:"bound_asked"`
	Points     int      `json:"choice_points"`
	MaxThreads int      `json:"max_threads"`
	Steps      int      `json:"steps"`
	States     int      `json:"states"`
	Outcomes   int      `json:"distinct_outcomes"`
	Diverged   int      `json:"diverged"`
	Samples    []string `json:"samples"`
	Bound      string   `json:"bound"`
}

type WorkerOut struct {
	Failures []Failure   `json:"failures"`
	Suites   []SuiteStat `json:"suites"`
	Level    string      `json:"level"`
	Rule     string      `json:"rule"`
	Assume   []string    `json:"assumptions"`
	Error    string      `json:"error"`
	RaceRun  bool        `json:"race"`
}

var (
	repo  = flag.String("repo", "/repo", "")
	verif = flag.String("verif", "/verif", "")
	prop  = flag.String("prop", "", "property id")
	tier  = flag.String("tier", "quick", "")
	seed  = flag.Int("seed", 1, "")
	keep  = flag.Bool("keep", false, "keep the scratch directory")
	repl  = flag.String("replay", "", "replay file")
	race  = flag.Bool("race", false, "race build")
	nsh   = flag.Int("shards", 8, "")
	budg  = flag.Int("budget", 0, "seconds of exploration")
	suite = flag.String("suite", "", "only this suite (debugging)")
)

// Which properties are explored on a build with the race detector, as a second
// pass with the given share of the budget.
type conf struct {
	quick, thorough int  // seconds of exploration
	race            bool // needs a race-detector pass
}

func main() {
	flag.Parse()
	os.Exit(realMain())
}

func note(f string, a ...any) { fmt.Fprintf(os.Stderr, "vf: "+f+"\n", a...) }

func realMain() int {
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "vf-")
	if err != nil {
		note("%v", err)
		return 2
	}
	if !*keep {
		defer os.RemoveAll(scratch)
	} else {
		note("scratch %s", scratch)
	}
	in, ov, err := Instrument(*repo, *verif, scratch)
	if err != nil {
		note("instrumenting: %v", err)
		return 2
	}
	note("instrumented %d files in %.1fs: %v", in.files, time.Since(t0).Seconds(), in.points)
	var bp struct{ Race, Plain bool }
	c, ok := confs[*prop]
	if !ok {
		c = conf{quick: 20, thorough: 300}
	}
	bp.Plain = true
	bp.Race = c.race
	var wg sync.WaitGroup
	var e1, e2 error
	plain := filepath.Join(scratch, "h.plain")
	rbin := filepath.Join(scratch, "h.race")
	build := func(out string, race bool) error {
		args := []string{"build", "-buildvcs=false", "-overlay", ov, "-o", out}
		if race {
			args = append(args, "-race", "-gcflags="+in.module+"/"+vsDir+"/...=-race=false -l")
		}
		args = append(args, "./"+hDir)
		_, err := run(goCmd(*repo, args...))
		return err
	}
	wg.Add(1)
	go func() { defer wg.Done(); e1 = build(plain, false) }()
	if bp.Race {
		wg.Add(1)
		go func() { defer wg.Done(); e2 = build(rbin, true) }()
	}
	wg.Wait()
	if e1 != nil || e2 != nil {
		note("build: %v %v", e1, e2)
		return 2
	}
	note("built after %.1fs", time.Since(t0).Seconds())
	if *prop == "" {
		return 0
	}

	if *repl != "" {
		return replay(plain, rbin, bp.Race, scratch)
	}

	secs := c.quick
	if *tier == "thorough" {
		secs = c.thorough
	}
	if *budg > 0 {
		secs = *budg
	}
	total := &merged{states: map[uint64]struct{}{}}
	crash := runShards(plain, scratch, false, secs, total)
	if bp.Race && crash == nil && len(total.fails) == 0 {
		crash = runShards(rbin, scratch, true, secs, total)
	}
	return report(total, crash, plain, rbin, scratch, t0)
}

type merged struct {
	fails   []Failure
	suites  []SuiteStat
	out     WorkerOut
	states  map[uint64]struct{}
	errors  []string
	killed  bool
	runs    int
	timeout int
}

type crashInfo struct {
	race  bool
	place string
	log   string
}

func worker(bin, scratch string, race bool, args []string, limit time.Duration, out *string) (string, bool, error) {
	c := exec.Command(bin, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 atexit_sleep_ms=0 history_size=3 exitcode=0")
	c.Env = append(c.Env, "GOTRACEBACK=all")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	logf, err := os.CreateTemp(scratch, "log")
	if err != nil {
		return "", false, err
	}
	defer logf.Close()
	c.Stdout = logf
	c.Stderr = logf
	if err := c.Start(); err != nil {
		return "", false, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		c.Process.Signal(syscall.SIGQUIT)
		select {
		case err = <-done:
		case <-time.After(5 * time.Second):
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			err = <-done
		}
	}
	return logf.Name(), timedOut, err
}

func tail(p string, n int) string {
	b, _ := os.ReadFile(p)
	if len(b) > n {
		// The beginning tells more about a Go crash than the end.
		return string(b[:n])
	}
	return string(b)
}

type crashRec struct {
	place    string // suite\tindex\tdevs
	log      string
	timedOut bool
	race     bool
}

func runShards(bin, scratch string, race bool, secs int, m *merged) *crashRec {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var crash *crashRec
	base := len(m.suites)
	for i := 0; i < *nsh; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(scratch, fmt.Sprintf("out.%v.%d", race, i))
			args := []string{"-prop", *prop, "-tier", *tier, "-shard", fmt.Sprintf("%d/%d", i, *nsh),
				"-seed", strconv.Itoa(*seed),
				"-budget", strconv.Itoa(secs), "-out", out}
			if *suite != "" {
				args = append(args, "-suite", *suite)
			}
			// The worker watches its own budget; the limit is only
			// for a worker that hangs.
			logf, to, err := worker(bin, scratch, race, args, time.Duration(secs*2+90)*time.Second, nil)
			mu.Lock()
			defer mu.Unlock()
			var w WorkerOut
			b, rerr := os.ReadFile(out)
			if err != nil || rerr != nil || json.Unmarshal(b, &w) != nil {
				pl, _ := os.ReadFile(out + ".progress")
				note("shard %d (race=%v) ended abnormally: %v timeout=%v at %q", i, race, err, to, string(pl))
				if os.Getenv("VF_DEBUG") != "" {
					note("%s", tail(logf, 2000))
				}
				if crash == nil {
					crash = &crashRec{place: string(pl), log: tail(logf, 20000), timedOut: to, race: race}
				}
				return
			}
			if os.Getenv("VF_DEBUG") != "" {
				if t := tail(logf, 1500); t != "" {
					note("shard %d log: %s", i, t)
				}
			}
			m.runs++
			if w.Error != "" {
				m.errors = append(m.errors, w.Error)
			}
			m.out.Level, m.out.Rule, m.out.Assume = w.Level, w.Rule, w.Assume
			for _, f := range w.Failures {
				if race {
					f.Outcome = "race:" + f.Outcome
				}
				m.fails = append(m.fails, f)
			}
			for k, s := range w.Suites {
				j := base + k
				if race {
					s.Name += " [race detector]"
				}
				if j >= len(m.suites) {
					m.suites = append(m.suites, s)
					continue
				}
				a := &m.suites[j]
				a.Evals += s.Evals
				if s.Cases > a.Cases {
					a.Cases = s.Cases
				}
				a.Done = a.Done && s.Done
				if s.BoundDone < a.BoundDone {
					a.BoundDone = s.BoundDone
				}
				a.Points += s.Points
				a.Steps += s.Steps
				a.States += s.States
				a.Diverged += s.Diverged
				if s.Outcomes > a.Outcomes {
					a.Outcomes = s.Outcomes
				}
				if s.MaxThreads > a.MaxThreads {
					a.MaxThreads = s.MaxThreads
				}
				if len(a.Samples) < 3 {
					a.Samples = append(a.Samples, s.Samples...)
				}
			}
			hb, _ := os.ReadFile(out + ".hashes")
			for k := 0; k+8 <= len(hb); k += 8 {
				m.states[binary.LittleEndian.Uint64(hb[k:])] = struct{}{}
			}
		}(i)
	}
	wg.Wait()
	return crash
}

func known() map[string]bool {
	res := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(*verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) >= 2 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			res[strings.TrimPrefix(f[0], "property=")+" "+strings.TrimPrefix(f[1], "key=")] = true
		}
	}
	return res
}

// rerun executes one failure alone in a fresh process.
func rerun(f *Failure, plain, rbin, scratch string) (string, *Failure) {
	b, _ := json.Marshal(f)
	rf := filepath.Join(scratch, "rerun.json")
	os.WriteFile(rf, b, 0o644)
	out := filepath.Join(scratch, "rerun.out")
	os.Remove(out)
	bin := plain
	if strings.HasPrefix(f.Outcome, "race:") && rbin != "" {
		bin = rbin
	}
	logf, to, err := worker(bin, scratch, bin == rbin, []string{"-prop", *prop, "-tier", *tier, "-replay", rf, "-out", out, "-seed", strconv.Itoa(*seed)}, 100*time.Second, nil)
	var w WorkerOut
	ob, rerr := os.ReadFile(out)
	if rerr != nil || json.Unmarshal(ob, &w) != nil {
		what := "crash"
		if to {
			what = "hang"
		}
		return what, &Failure{Key: what, Msg: fmt.Sprintf("%s: %v", what, err), Stack: tail(logf, 40000),
			Suite: f.Suite, Index: f.Index, Case: f.Case, Devs: f.Devs, MapRev: f.MapRev, Policy: f.Policy, Sched: f.Sched, Outcome: f.Outcome}
	}
	if len(w.Failures) == 0 {
		return "ok", nil
	}
	g := w.Failures[0]
	for _, x := range w.Failures {
		if x.Key == f.Key {
			g = x
		}
	}
	if strings.HasPrefix(f.Outcome, "race:") {
		if lt := tail(logf, 8000); strings.Contains(lt, "DATA RACE") {
			g.Stack = lt
			if strings.HasPrefix(g.Key, "data-race") {
				g.Key = "data-race:" + raceSites(lt)
			}
		}
		g.Outcome = "race:" + g.Outcome
	}
	return "fail", &g
}

func saveReplay(f *Failure, n int) string {
	dir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, n))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func report(m *merged, crash *crashRec, plain, rbin, scratch string, t0 time.Time) int {
	kn := known()
	viol := 0
	reported := map[string]bool{}
	knownSeen := map[string]string{}
	unconfirmed := []string{}
	sort.SliceStable(m.fails, func(i, j int) bool {
		a, b := &m.fails[i], &m.fails[j]
		if len(a.Devs) != len(b.Devs) {
			return len(a.Devs) < len(b.Devs)
		}
		if a.Suite != b.Suite {
			return a.Suite < b.Suite
		}
		return a.Index < b.Index
	})
	tried := 0
	for i := range m.fails {
		f := &m.fails[i]
		if kn[*prop+" "+f.Key] {
			knownSeen[f.Key] = f.Msg
			continue
		}
		if reported[f.Key] || viol >= 5 || tried >= 12 {
			continue
		}
		tried++
		// Confirm: two fresh processes must both show it. For a data
		// race the schedule is the same every time but what the
		// detector sees of it is not (sync.Pool inside fmt adds
		// random happens-before edges), so two out of twelve.
		good := 0
		var g *Failure
		tries := 2
		if strings.HasPrefix(f.Key, "data-race") {
			tries = 12
		}
		for k := 0; k < tries && good < 2; k++ {
			st, x := rerun(f, plain, rbin, scratch)
			if st != "ok" && (tries == 2 || strings.HasPrefix(x.Key, "data-race")) {
				good++
				g = x
			}
		}
		if good < 2 {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s: %s (%d of 2)", f.Suite, f.Case, f.Msg, good))
			continue
		}
		if kn[*prop+" "+g.Key] {
			knownSeen[g.Key] = g.Msg
			continue
		}
		reported[f.Key] = true
		if g.Stack == "" {
			g.Stack = f.Stack
		}
		viol++
		p := saveReplay(g, viol)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		fmt.Printf("  %s: %s\n  %s\n", g.Suite, g.Case, firstLines(g.Msg, 12))
	}
	if crash != nil && viol == 0 {
		// suite \t index \t case \t devs(json) \t maprev \t sched
		parts := strings.Split(crash.place, "\t")
		if len(parts) >= 6 {
			f := &Failure{Key: "crash", Suite: parts[0], Case: parts[2], MapRev: parts[4] == "true", Sched: parts[5] == "true"}
			f.Index, _ = strconv.Atoi(parts[1])
			json.Unmarshal([]byte(parts[3]), &f.Devs)
			if len(parts) >= 7 {
				f.Policy, _ = strconv.Atoi(parts[6])
			}
			if crash.race {
				f.Outcome = "race:"
			}
			good := 0
			var g *Failure
			for k := 0; k < 2; k++ {
				st, x := rerun(f, plain, rbin, scratch)
				if st != "ok" {
					good++
					g = x
				}
			}
			if good == 2 && !kn[*prop+" "+g.Key] {
				viol++
				p := saveReplay(g, viol)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
				fmt.Printf("  %s: %s\n  %s\n", g.Suite, g.Case, firstLines(g.Msg+"\n"+g.Stack, 12))
			} else {
				unconfirmed = append(unconfirmed, fmt.Sprintf("worker ended at %s %s; not reproduced alone", f.Suite, f.Case))
			}
		} else {
			unconfirmed = append(unconfirmed, "worker ended before its first case: "+firstLines(crash.log, 5))
		}
	}
	for k, v := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, k, firstLines(v, 1))
	}
	for _, u := range unconfirmed {
		note("not confirmed (not reported): %s", u)
	}
	for _, e := range m.errors {
		note("worker error: %s", e)
	}
	writeEvidence(m, viol, unconfirmed, crash, t0)
	if viol > 0 {
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func writeEvidence(m *merged, viol int, unconfirmed []string, crash *crashRec, t0 time.Time) {
	evals, steps, states := 0, 0, 0
	exhaustive := crash == nil && len(unconfirmed) == 0
	var samples []string
	for _, s := range m.suites {
		evals += s.Evals
		steps += s.Steps
		states += s.States
		if !s.Done {
			exhaustive = false
		}
		for i, x := range s.Samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, s.Name+": "+x)
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(m.states),
		"rule":                m.out.Rule,
		"samples":             samples,
		"exhaustive":          exhaustive,
		"suites":              compact(m.suites),
		"parts":               len(m.suites),
		"unconfirmed":         unconfirmed,
		"shards":              *nsh,
	}
	level := m.out.Level
	if level == "" {
		level = "exploration"
	}
	if level == "model_checking" {
		cov["states"] = states
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = evals
	}
	ev := map[string]any{
		"property":    *prop,
		"tier":        *tier,
		"seed":        *seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": m.out.Assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644)
	note("%s: %d evaluations, %d distinct, %d steps, exhaustive=%v, violations=%d, %.1fs",
		*prop, evals, len(m.states), steps, exhaustive, viol, time.Since(t0).Seconds())
	for _, s := range m.suites {
		note("  %-40s evals=%d complete=%v bound=%d/%d steps=%d states=%d outcomes=%d threads=%d div=%d", s.Name, s.Evals, s.Done,
			s.BoundDone, s.BoundAsked, s.Steps, s.States, s.Outcomes, s.MaxThreads, s.Diverged)
	}
}

type compactStat struct {
	SuiteStat
	Variants   int `json:"variants,omitempty"`
	Incomplete int `json:"variants_incomplete,omitempty"`
}

// compact joins the base schedules and race passes of a scenario when there
// are many of them, which keeps the evidence file small.
func compact(l []SuiteStat) []any {
	var res []any
	if len(l) <= 150 {
		for _, s := range l {
			res = append(res, s)
		}
		return res
	}
	at := map[string]*compactStat{}
	for _, s := range l {
		name := s.Name
		for _, cut := range []string{" [base schedule", " [race detector"} {
			if i := strings.Index(name, cut); i >= 0 {
				name = name[:i]
			}
		}
		a := at[name]
		if a == nil {
			a = &compactStat{SuiteStat: s}
			a.Name = name
			at[name] = a
			if len(a.Samples) > 1 {
				a.Samples = a.Samples[:1]
			}
			res = append(res, a)
		} else {
			a.Evals += s.Evals
			a.Points += s.Points
			a.Steps += s.Steps
			a.States += s.States
			a.Diverged += s.Diverged
			a.Outcomes = max(a.Outcomes, s.Outcomes)
			a.MaxThreads = max(a.MaxThreads, s.MaxThreads)
			a.BoundDone = min(a.BoundDone, s.BoundDone)
			a.Done = a.Done && s.Done
		}
		a.Variants++
		if !s.Done {
			a.Incomplete++
		}
		if len(res) > 100 {
			a.Samples, a.Bound = nil, ""
		}
	}
	return res
}

func replay(plain, rbin string, race bool, scratch string) int {
	b, err := os.ReadFile(*repl)
	if err != nil {
		note("%v", err)
		return 2
	}
	f := &Failure{}
	if err := json.Unmarshal(b, f); err != nil {
		note("%v", err)
		return 2
	}
	if !race {
		rbin = ""
	}
	st, g := rerun(f, plain, rbin, scratch)
	if st == "ok" {
		fmt.Println("replay: the property held")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n  %s\n%s\n%s\n", *prop, *repl, g.Suite, g.Case, g.Msg, g.Stack, strings.Join(g.Trace, "\n"))
	return 1
}

// raceSites names the two functions of the first race report.
func raceSites(log string) string {
	var sites []string
	lines := strings.Split(log, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") ||
			strings.HasPrefix(l, "Previous read at") || strings.HasPrefix(l, "Previous write at") {
			for j := i + 1; j < len(lines) && strings.HasPrefix(lines[j], "  "); j++ {
				f := strings.TrimSpace(lines[j])
				if strings.HasPrefix(f, "/") || strings.HasPrefix(f, "runtime.") {
					continue
				}
				if k := strings.LastIndex(f, "/"); k >= 0 {
					f = f[k+1:]
				}
				sites = append(sites, strings.TrimSuffix(f, "()"))
				break
			}
		}
		if len(sites) == 2 {
			break
		}
	}
	sort.Strings(sites)
	return strings.Join(sites, "|")
}
