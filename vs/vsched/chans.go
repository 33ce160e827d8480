package vsched

import (
	"iter"
	"unsafe"
)

// chanTab maps addresses to object numbers without using Go maps (whose
// runtime accesses are visible to the race detector).
type chanTab struct {
	keys []unsafe.Pointer
	ords []int32
	n    int
}

func (c *chanTab) init() {
	c.keys = make([]unsafe.Pointer, 256)
	c.ords = make([]int32, 256)
}

func (c *chanTab) slot(keys []unsafe.Pointer, p unsafe.Pointer) int {
	h := uint64(uintptr(p)) * 0x9e3779b97f4a7c15
	i := int(h>>32) & (len(keys) - 1)
	for keys[i] != nil && keys[i] != p {
		i = (i + 1) & (len(keys) - 1)
	}
	return i
}

func (c *chanTab) ord(s *Sched, p unsafe.Pointer) int32 {
	if p == nil {
		return 0
	}
	i := c.slot(c.keys, p)
	if c.keys[i] == p {
		return c.ords[i]
	}
	if c.n*2 >= len(c.keys) {
		nk := make([]unsafe.Pointer, len(c.keys)*2)
		no := make([]int32, len(nk))
		for j, k := range c.keys {
			if k != nil {
				q := c.slot(nk, k)
				nk[q] = k
				no[q] = c.ords[j]
			}
		}
		c.keys, c.ords = nk, no
		i = c.slot(c.keys, p)
	}
	c.n++
	c.keys[i] = p
	c.ords[i] = s.newObj()
	return c.ords[i]
}

// chanOp publishes one channel operation and waits for the grant.  It returns
// nil when no controlled execution is active.
func chanOp(p unsafe.Pointer, send bool) *Thread {
	s := cs
	if s == nil {
		return nil
	}
	me := s.cur
	me.kind = kChan
	me.hasDef = false
	me.case1[0] = Case{Ch: p, Send: send}
	me.cases = me.case1[:]
	me.obj = s.chans.ord(s, p)
	me.write = true
	me.what = "chan"
	s.schedule(me)
	return me
}

// After ends a granted native channel operation.
func (t *Thread) After() {
	if t == nil {
		return
	}
	s := cs
	if s == nil {
		return
	}
	if t.partner {
		t.partner = false
		t.kind = kResume
		t.obj = -1
		t.what = "resume"
		unpark(s.ack)
		park(t.wake)
		return
	}
	if t.waitAck {
		t.waitAck = false
		park(s.ack)
	}
}

// Sel runs a select: it returns the index of the chosen case (-1: default).
func Sel(hasDefault bool, cases ...Case) (int, *Thread) {
	s := cs
	if s == nil {
		return selNative(hasDefault, cases), nil
	}
	me := s.cur
	me.kind = kChan
	me.hasDef = hasDefault
	me.cases = cases
	me.obj = -1
	for i := range cases {
		if cases[i].Ch != nil {
			o := s.chans.ord(s, cases[i].Ch)
			if me.obj < 0 {
				me.obj = o
			}
		}
	}
	// A select is a candidate for preemption whatever its first channel is.
	me.obj = -1
	me.write = true
	me.what = "select"
	s.schedule(me)
	return me.grant, me
}

func chp[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func RecvCase[T any](ch <-chan T) Case { return Case{Ch: chp(ch)} }
func SendCase[T any](ch chan<- T) Case { return Case{Ch: chp(ch), Send: true} }

// PrepSend evaluates the value of a send case early, as select does.
func PrepSend[T any](ch chan<- T) func(v T) func() {
	return func(v T) func() {
		return func() { ch <- v }
	}
}

// SendTo returns a sender so that the value converts to the element type.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		t := chanOp(chp(ch), true)
		ch <- v
		t.After()
	}
}

func Recv[T any](ch <-chan T) T {
	t := chanOp(chp(ch), false)
	v := <-ch
	t.After()
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	t := chanOp(chp(ch), false)
	v, ok := <-ch
	t.After()
	return v, ok
}

func Range[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

func closePoint(p unsafe.Pointer) {
	s := cs
	if s == nil {
		return
	}
	me := s.cur
	me.kind = kPoint
	me.obj = s.chans.ord(s, p)
	me.write = true
	me.what = "close"
	s.schedule(me)
}

func Close[T any](ch chan<- T) {
	closePoint(chp(ch))
	close(ch)
}

// selNative polls natively; only used outside controlled executions.
func selNative(hasDefault bool, cases []Case) int {
	for {
		for i, c := range cases {
			if c.Ch == nil {
				continue
			}
			if c.Send && (chClosed(c.Ch) || chLen(c.Ch) < chCap(c.Ch)) {
				return i
			}
			if !c.Send && (chLen(c.Ch) > 0 || chClosed(c.Ch)) {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		Yield()
	}
}
