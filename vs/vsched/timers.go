package vsched

import "time"

// Virtual time: the clock only moves when a timer fires.

func (s *Sched) haveTimer() bool {
	for len(s.timers) > 0 && *s.timers[0].dead {
		s.timers = s.timers[1:]
	}
	return len(s.timers) > 0
}

func (s *Sched) fireTimer() {
	if !s.haveTimer() {
		return
	}
	t := s.timers[0]
	s.timers = s.timers[1:]
	if t.when > s.now {
		s.now = t.when
	}
	*t.dead = true
	s.res.Timers++
	t.fire()
}

// AddTimer registers fire (which must not block) after d. The returned
// function cancels it and reports whether it was still pending.
func AddTimer(d time.Duration, fire func()) (stop func() bool) {
	s := cs
	if s == nil {
		t := time.AfterFunc(d, fire)
		return t.Stop
	}
	if d < 0 {
		d = 0
	}
	dead := false
	ent := timerEnt{when: s.now + int64(d), seq: s.tseq, fire: fire, dead: &dead}
	s.tseq++
	i := len(s.timers)
	s.timers = append(s.timers, ent)
	for i > 0 && s.timers[i-1].when > ent.when {
		s.timers[i] = s.timers[i-1]
		i--
	}
	s.timers[i] = ent
	return func() bool {
		if dead {
			return false
		}
		dead = true
		return true
	}
}

// Now is the virtual time.
func Now() time.Time {
	if cs == nil {
		return time.Now()
	}
	return time.Unix(0, cs.now).UTC()
}

// Sleep blocks for d of virtual time.
func Sleep(d time.Duration) {
	s := cs
	if s == nil {
		time.Sleep(d)
		return
	}
	me := s.cur
	me.kind = kSleep
	me.obj = -1
	me.what = "sleep"
	me.until = s.now + int64(d)
	if d > 0 {
		AddTimer(d, func() {})
	}
	s.schedule(me)
}
