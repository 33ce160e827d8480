// Package vtime replaces the clock of package time in the instrumented build.
package vtime

import (
	"time"

	"PKG/vsched"
)

func Now() time.Time                  { return vsched.Now() }
func Since(t time.Time) time.Duration { return vsched.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(vsched.Now()) }
func Sleep(d time.Duration)           { vsched.Sleep(d) }

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
}

func (t *Timer) start(d time.Duration) {
	if t.f != nil {
		f := t.f
		t.stop = vsched.AddTimer(d, func() { vsched.Go(f) })
		return
	}
	c := t.c
	t.stop = vsched.AddTimer(d, func() {
		select {
		case c <- vsched.Now():
		default:
		}
	})
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Stop() bool {
	r := t.stop()
	t.drain()
	return r
}

func (t *Timer) Reset(d time.Duration) bool {
	r := t.stop()
	t.drain()
	t.start(d)
	return r
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop func() bool
}

func (t *Ticker) arm() {
	c := t.c
	t.stop = vsched.AddTimer(t.d, func() {
		select {
		case c <- vsched.Now():
		default:
		}
		t.arm()
	})
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

func (t *Ticker) Stop() { t.stop() }

func (t *Ticker) Reset(d time.Duration) {
	t.stop()
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
