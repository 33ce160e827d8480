// Package vsched is a controlled cooperative scheduler for the instrumented
// build of the code under test.
//
// Exactly one instrumented goroutine runs at a time.  Every goroutine start,
// channel operation, select, mutex/waitgroup/once/cond operation, atomic
// load/store/CAS and timer goes through this package: the goroutine publishes
// the operation it wants to do next and the scheduler decides who goes on.
// The decisions form a sequence of choice points; an execution is identified by
// the sparse list of its deviations from the default decision.
//
// The package is compiled without race instrumentation and hides its own
// hand-offs from the race detector (see race.go), so that under -race the
// happens-before relation is the one of the program under test and not the one
// of the scheduler.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
)

type kind uint8

const (
	kStart kind = iota
	kResume
	kPoint
	kWait
	kChan
	kQuiesce
	kSleep
)

var kindName = []string{"start", "resume", "point", "wait", "chan", "quiesce", "sleep"}

// Waiter is a blocking primitive; Ready says whether the waiting thread could
// go on now.
type Waiter interface{ VSReady() bool }

// Obj identifies a synchronisation object within one execution.
type Obj struct {
	epoch uint32
	ord   int32
}

type Thread struct {
	id      int
	parent  int
	wake    chan struct{}
	kind    kind
	w       Waiter
	obj     int32
	write   bool
	what    string
	cases   []Case
	case1   [1]Case
	hasDef  bool
	grant   int
	partner bool // woken as the passive side of a rendezvous
	waitAck bool // the active side has to wait for the passive side
	done    bool
	stalled bool
	hist    uint64
	steps   int
	group   int32
	until   int64
}

type Case struct {
	Ch   unsafe.Pointer
	Send bool
}

type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func chLen(p unsafe.Pointer) int     { return int((*hchan)(p).qcount) }
func chCap(p unsafe.Pointer) int     { return int((*hchan)(p).dataqsiz) }
func chClosed(p unsafe.Pointer) bool { return (*hchan)(p).closed != 0 }

func init() {
	c := make(chan int64, 3)
	c <- 1
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	ok := chLen(p) == 1 && chCap(p) == 3 && !chClosed(p)
	close(c)
	ok = ok && chClosed(p) && chLen(p) == 1
	if !ok {
		fmt.Fprintln(os.Stderr, "vsched: unexpected channel layout")
		os.Exit(97)
	}
}

// Point is one recorded choice point.
type Point struct {
	N      int32 // number of alternatives
	Chosen int32
	Obj    int32 // object of the pending operation of the running thread, -1: forced switch / sub choice
	Kind   uint8 // 0 thread choice, 1 select case, 2 rendezvous partner, 3 environment choice
	Hash   uint64
}

type Dev struct {
	At  int32
	Alt int32
}

type timerEnt struct {
	when int64
	seq  int
	fire func()
	dead *bool
}

type objInfo struct {
	first int32
	multi bool
	write bool
	group int32 // of the first thread with one
	cross bool  // touched by several groups
}

type Outcome int

const (
	OK Outcome = iota
	Deadlock
	Horizon
	Panicked
	Fatal
	Diverged
)

var outcomeName = []string{"ok", "deadlock", "horizon", "panic", "fatal", "diverged"}

func (o Outcome) String() string { return outcomeName[o] }

type Options struct {
	MaxSteps    int
	EarlyTimers bool
	// Number of timer firings allowed in one execution.
	MaxTimers int
	// If set, all state hashes are collected here.
	States *StateSet
	// Trace the schedule (for replays).
	Trace bool
	// Reverse map iteration order.
	MapReverse bool
	// The schedule that deviations are counted from: 0 runs a thread until
	// it blocks and then the oldest, 1 the youngest; 2 and 3 run the
	// threads in turn, step by step, by increasing and decreasing age (1
	// and 3 also prefer the last of several ready cases of a select).
	Policy int
}

type Result struct {
	Outcome Outcome
	Msg     string
	Stack   string
	Points  []Point
	Steps   int
	Threads int
	Timers  int
	Objs    []objInfo
	Trace   []string
	Notes   []any
}

// CrossGroup says whether threads of several groups touched the object.
func (r *Result) CrossGroup(obj int32) bool {
	return obj >= 0 && int(obj) < len(r.Objs) && r.Objs[obj].cross && r.Objs[obj].write
}

// SetGroup puts the running thread, and those it starts from now on, into a
// group (0: none).
func SetGroup(g int) {
	if cs != nil {
		cs.cur.group = int32(g)
	}
}

// Shared says whether two threads touched the object and one of them in a
// conflicting way.
func (r *Result) Shared(obj int32) bool {
	if obj < 0 || int(obj) >= len(r.Objs) {
		return true
	}
	o := &r.Objs[obj]
	return o.multi && o.write
}

type Sched struct {
	threads []*Thread
	live    int
	cur     *Thread
	devs    []Dev
	di      int
	opts    Options
	res     *Result
	epoch   uint32
	nobj    int32
	chans   chanTab
	ack     chan struct{}
	doneCh  chan struct{}
	over    bool
	timers  []timerEnt
	tseq    int
	now     int64
	en      []*Thread
	stalled []*Thread
	shash   uint64
}

var (
	cs    *Sched
	epoch uint32
)

// Active says whether a controlled execution is running.
func Active() bool { return cs != nil }

// Epoch identifies the current controlled execution.
func Epoch() uint32 { return epoch }

const baseTime = int64(1_700_000_000_000_000_000)

// Run executes body under the scheduler.
func Run(body func(), devs []Dev, opts Options) *Result {
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 200000
	}
	if opts.MaxTimers == 0 {
		opts.MaxTimers = 200
	}
	epoch++
	s := &Sched{
		devs:   devs,
		opts:   opts,
		res:    &Result{},
		epoch:  epoch,
		ack:    make(chan struct{}, 1),
		doneCh: make(chan struct{}, 1),
		now:    baseTime,
	}
	s.chans.init()
	mapReverse = opts.MapReverse
	t := s.newThread()
	cs = s
	go s.threadMain(t, body, true)
	s.cur = t
	t.wake <- struct{}{}
	<-s.doneCh
	cs = nil
	s.res.Threads = len(s.threads)
	return s.res
}

func (s *Sched) newThread() *Thread {
	t := &Thread{id: len(s.threads), wake: make(chan struct{}, 1), kind: kStart, obj: -1}
	if s.cur != nil {
		t.parent = s.cur.id
		t.group = s.cur.group
	}
	s.threads = append(s.threads, t)
	s.live++
	return t
}

func (s *Sched) threadMain(t *Thread, f func(), main bool) {
	park(t.wake)
	defer func() {
		if s.over {
			return
		}
		r := recover()
		if r != nil {
			buf := make([]byte, 16384)
			n := runtime.Stack(buf, false)
			s.finish(Panicked, fmt.Sprintf("panic in goroutine %d: %v", t.id, r), string(buf[:n]))
			return
		}
		t.done = true
		s.live--
		if main {
			s.finish(OK, "", "")
			return
		}
		s.schedule(t)
	}()
	f()
}

func (s *Sched) finish(o Outcome, msg, stack string) {
	if s.over {
		return
	}
	s.over = true
	s.res.Outcome = o
	s.res.Msg = msg
	s.res.Stack = stack
	s.res.Steps += 0
	s.res.Objs = s.objs()
	s.doneCh <- struct{}{}
}

// die ends the execution from inside a thread; the calling goroutine never
// comes back.
func (s *Sched) die(o Outcome, msg string) {
	stack := ""
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	stack = string(buf[:n])
	s.finish(o, msg, stack)
	disable()
	select {}
}

// Fail ends the execution with a fatal misuse of a primitive.
func Fail(msg string) {
	if cs == nil {
		panic("fatal: " + msg)
	}
	cs.die(Fatal, msg)
}

func (s *Sched) enabled(t *Thread) bool {
	switch t.kind {
	case kStart, kResume, kPoint:
		return true
	case kWait:
		return t.w.VSReady()
	case kSleep:
		return s.now >= t.until
	case kChan:
		if t.hasDef {
			return true
		}
		for i := range t.cases {
			if s.caseReady(t, &t.cases[i]) {
				return true
			}
		}
		return false
	}
	return false
}

func (s *Sched) caseReady(t *Thread, c *Case) bool {
	if c.Ch == nil {
		return false
	}
	if c.Send {
		if chClosed(c.Ch) || chLen(c.Ch) < chCap(c.Ch) {
			return true
		}
	} else {
		if chLen(c.Ch) > 0 || chClosed(c.Ch) {
			return true
		}
	}
	if chCap(c.Ch) != 0 {
		return false
	}
	for _, o := range s.threads {
		if o == t || o.done || o.kind != kChan {
			continue
		}
		for i := range o.cases {
			if o.cases[i].Ch == c.Ch && o.cases[i].Send != c.Send {
				return true
			}
		}
	}
	return false
}

func (s *Sched) choose(n int, kind uint8, obj int32, h uint64) int {
	if n <= 1 {
		return 0
	}
	idx := len(s.res.Points)
	alt := 0
	if s.di < len(s.devs) && int(s.devs[s.di].At) == idx {
		alt = int(s.devs[s.di].Alt)
		s.di++
		if alt >= n {
			s.die(Diverged, fmt.Sprintf("choice %d of %d at point %d", alt, n, idx))
		}
	}
	s.res.Points = append(s.res.Points, Point{N: int32(n), Chosen: int32(alt), Obj: obj, Kind: kind, Hash: h})
	return alt
}

// Choose is an explored environment choice made by a harness (default 0).
func Choose(n int) int {
	if cs == nil {
		return 0
	}
	return cs.choose(n, 3, -1, uint64(n))
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a *= 0xff51afd7ed558ccd
	a ^= a >> 32
	return a
}

// schedule is called by the running thread, with its next operation published
// (or done), and returns when that operation has been granted.
func (s *Sched) schedule(me *Thread) {
	if s.over {
		disable()
		select {}
	}
	s.res.Steps++
	if s.res.Steps > s.opts.MaxSteps {
		s.die(Horizon, fmt.Sprintf("no termination within %d steps", s.opts.MaxSteps))
	}
	var next *Thread
	for {
		// The running thread first, then by age, stalled threads last.
		en := s.en[:0]
		meEn := !me.done && s.enabled(me)
		turns := s.opts.Policy >= 2
		if meEn && !turns {
			en = append(en, me)
		}
		for i := range s.threads {
			k := i
			switch s.opts.Policy {
			case 1:
				k = len(s.threads) - 1 - i
			case 2:
				k = (me.id + 1 + i) % len(s.threads)
			case 3:
				k = (me.id - 1 - i + 2*len(s.threads)) % len(s.threads)
			}
			t := s.threads[k]
			if (t != me || turns) && !t.done && !t.stalled && t.kind != kQuiesce && s.enabled(t) {
				en = append(en, t)
			}
		}
		for _, t := range s.stalled {
			if t != me && !t.done && t.stalled && t.kind != kQuiesce && s.enabled(t) {
				en = append(en, t)
			}
		}
		s.en = en
		n := len(en)
		early := 0
		if n > 0 && s.opts.EarlyTimers && s.haveTimer() && s.res.Timers < s.opts.MaxTimers {
			early = 1
		}
		if n == 0 {
			if s.haveTimer() && s.res.Timers < s.opts.MaxTimers {
				s.fireTimer()
				continue
			}
			for _, t := range s.threads {
				if !t.done && t.kind == kQuiesce {
					next = t
					break
				}
			}
			if next != nil {
				break
			}
			s.die(Deadlock, "deadlock: "+s.describe())
		}
		obj := int32(-1)
		if meEn {
			obj = me.obj
			if me.kind == kStart || me.kind == kResume {
				obj = -2
			}
		}
		h := uint64(0)
		for _, t := range en {
			h = mix(h, uint64(t.id)+1)
		}
		c := s.choose(n+early, 0, obj, h)
		if c == n {
			s.fireTimer()
			continue
		}
		next = en[c]
		if c > 0 && meEn && !turns {
			// A preempted thread stalls until nothing else can run.
			me.stalled = true
			s.stalled = append(s.stalled, me)
		}
		if next.stalled {
			next.stalled = false
			// (No copy(): the race detector would see it.)
			n := 0
			for _, t := range s.stalled {
				if t != next {
					s.stalled[n] = t
					n++
				}
			}
			s.stalled = s.stalled[:n]
		}
		break
	}
	s.dispatch(me, next)
}

func (s *Sched) dispatch(me, next *Thread) {
	next.steps++
	next.grant = -1
	next.waitAck = false
	s.cur = next
	var partner *Thread
	if next.kind == kChan {
		// Which case?
		var ready [16]int
		nr := 0
		for i := range next.cases {
			if nr < len(ready) && s.caseReady(next, &next.cases[i]) {
				ready[nr] = i
				nr++
			}
		}
		if nr > 0 {
			k := s.choose(nr, 1, -1, uint64(nr))
			if s.opts.Policy&1 == 1 {
				k = nr - 1 - k
			}
			ci := ready[k]
			next.grant = ci
			c := &next.cases[ci]
			s.touch(next, s.chans.ord(s, c.Ch), true)
			if chCap(c.Ch) == 0 && !chClosed(c.Ch) {
				// Rendezvous.
				var ps [16]*Thread
				var pc [16]int
				np := 0
				for _, o := range s.threads {
					if o == next || o.done || o.kind != kChan {
						continue
					}
					for i := range o.cases {
						if o.cases[i].Ch == c.Ch && o.cases[i].Send != c.Send && np < len(ps) {
							ps[np] = o
							pc[np] = i
							np++
							break
						}
					}
				}
				p := s.choose(np, 2, -1, uint64(np))
				if s.opts.Policy&1 == 1 {
					p = np - 1 - p
				}
				partner = ps[p]
				partner.grant = pc[p]
				partner.partner = true
				s.touch(partner, s.chans.ord(s, c.Ch), true)
				partner.hist = mix(partner.hist, uint64(s.chans.ord(s, c.Ch))<<8|uint64(pc[p]))
				next.waitAck = true
			}
		}
		if nr == 0 {
			// The default case: it observed that nothing was ready.
			for i := range next.cases {
				if next.cases[i].Ch != nil {
					s.touch(next, s.chans.ord(s, next.cases[i].Ch), true)
				}
			}
		}
	} else if next.obj >= 0 {
		s.touch(next, next.obj, next.write)
	}
	hv := uint64(next.kind)<<40 | uint64(uint32(next.obj))<<8 | uint64(next.grant+1)
	if s.opts.States != nil {
		s.shash ^= mix(uint64(next.id)+77, next.hist)
		next.hist = mix(next.hist, hv)
		s.shash ^= mix(uint64(next.id)+77, next.hist)
		s.opts.States.Add(s.shash)
	}
	if s.opts.Trace {
		s.res.Trace = append(s.res.Trace, fmt.Sprintf("t%d %s", next.id, s.opDesc(next)))
	}
	next.w = nil
	if next == me {
		if partner != nil {
			unpark(partner.wake)
		}
		return
	}
	if partner != nil && partner != me {
		unpark(partner.wake)
	}
	unpark(next.wake)
	if partner == me {
		return
	}
	if me.done {
		return
	}
	park(me.wake)
}

func (s *Sched) opDesc(t *Thread) string {
	switch t.kind {
	case kChan:
		var parts []string
		for i := range t.cases {
			d := "recv"
			if t.cases[i].Send {
				d = "send"
			}
			parts = append(parts, fmt.Sprintf("%s#%d", d, s.chans.ord(s, t.cases[i].Ch)))
		}
		g := ""
		if t.grant >= 0 {
			g = fmt.Sprintf("->%d", t.grant)
		}
		return "chan{" + strings.Join(parts, ",") + "}" + g
	}
	return fmt.Sprintf("%s %s#%d", kindName[t.kind], t.what, t.obj)
}

func (s *Sched) describe() string {
	var parts []string
	for _, t := range s.threads {
		if !t.done {
			parts = append(parts, fmt.Sprintf("t%d(parent t%d) blocked in %s", t.id, t.parent, s.opDesc(t)))
		}
	}
	return strings.Join(parts, "; ")
}

// touch records who used an object.
func (s *Sched) touch(t *Thread, ord int32, write bool) {
	o := s.objAt(ord)
	if o.first == 0 {
		o.first = int32(t.id) + 1
	} else if o.first != int32(t.id)+1 {
		o.multi = true
	}
	if t.group != 0 {
		if o.group == 0 {
			o.group = t.group
		} else if o.group != t.group {
			o.cross = true
		}
	}
	if write {
		o.write = true
	}
}

func (s *Sched) objAt(ord int32) *objInfo {
	for int(ord) >= len(s.res.Objs) {
		s.res.Objs = append(s.res.Objs, objInfo{})
	}
	return &s.res.Objs[ord]
}

func (s *Sched) objs() []objInfo { return s.res.Objs }

func (s *Sched) newObj() int32 { s.nobj++; return s.nobj }

func (s *Sched) ordOf(o *Obj) int32 {
	if o.epoch != s.epoch {
		o.epoch = s.epoch
		o.ord = s.newObj()
	}
	return o.ord
}

// Step is a scheduling point before a non-blocking operation on obj.
func Step(obj *Obj, write bool, what string) {
	s := cs
	if s == nil {
		return
	}
	me := s.cur
	me.kind = kPoint
	me.obj = s.ordOf(obj)
	me.write = write
	me.what = what
	s.schedule(me)
}

// StepAddr is Step for an object identified by its address.
func StepAddr(p unsafe.Pointer, write bool, what string) {
	s := cs
	if s == nil {
		return
	}
	me := s.cur
	me.kind = kPoint
	me.obj = s.chans.ord(s, p)
	me.write = write
	me.what = what
	s.schedule(me)
}

// Wait blocks the running thread until w is ready and it is chosen.
func Wait(w Waiter, obj *Obj, write bool, what string) {
	s := cs
	if s == nil {
		return
	}
	me := s.cur
	me.kind = kWait
	me.w = w
	me.obj = s.ordOf(obj)
	me.write = write
	me.what = what
	s.schedule(me)
}

// Yield lets others run.
func Yield() {
	s := cs
	if s == nil {
		runtime.Gosched()
		return
	}
	me := s.cur
	me.kind = kPoint
	me.obj = -1
	me.what = "yield"
	s.schedule(me)
}

// Quiesce waits until no other thread can run any more (all timers fired) and
// returns the number of threads that are still alive, not counting the caller.
func Quiesce() int {
	s := cs
	if s == nil {
		return 0
	}
	me := s.cur
	me.kind = kQuiesce
	me.obj = -1
	me.what = "quiesce"
	s.schedule(me)
	return s.live - 1
}

// Live is the number of live threads other than the caller.
func Live() int {
	if cs == nil {
		return 0
	}
	return cs.live - 1
}

// Describe lists the live threads and what they wait for.
func Describe() string {
	if cs == nil {
		return ""
	}
	s := cs
	var parts []string
	for _, t := range s.threads {
		if !t.done && t != s.cur {
			parts = append(parts, fmt.Sprintf("t%d(parent t%d) in %s", t.id, t.parent, s.opDesc(t)))
		}
	}
	return strings.Join(parts, "; ")
}

// AllStacks dumps all goroutines.
func AllStacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	return string(buf[:n])
}

// ThreadID of the running thread.
func ThreadID() int {
	if cs == nil {
		return -1
	}
	return cs.cur.id
}

// StepCount is the number of scheduling steps so far.
func StepCount() int {
	if cs == nil {
		return 0
	}
	return cs.res.Steps
}

// Note records something without any synchronisation visible to the race
// detector.
func Note(v any) {
	if cs != nil {
		cs.res.Notes = append(cs.res.Notes, v)
	}
}

// Go starts a controlled goroutine.
func Go(f func()) {
	s := cs
	if s == nil {
		go f()
		return
	}
	t := s.newThread()
	go s.threadMain(t, f, false)
}

// StateSet is a set of hashes (open addressing; no Go map, see chanTab).
type StateSet struct {
	tab []uint64
	N   int
	Max int
}

func (s *StateSet) Add(h uint64) {
	if h == 0 {
		h = 1
	}
	if s.tab == nil {
		s.tab = make([]uint64, 1<<14)
	}
	if s.Max > 0 && s.N >= s.Max {
		return
	}
	m := len(s.tab) - 1
	i := int(h>>7) & m
	for s.tab[i] != 0 {
		if s.tab[i] == h {
			return
		}
		i = (i + 1) & m
	}
	s.tab[i] = h
	s.N++
	if s.N*2 > len(s.tab) {
		old := s.tab
		s.tab = make([]uint64, len(old)*2)
		m = len(s.tab) - 1
		for _, v := range old {
			if v == 0 {
				continue
			}
			j := int(v>>7) & m
			for s.tab[j] != 0 {
				j = (j + 1) & m
			}
			s.tab[j] = v
		}
	}
}
