package rt

import (
	"runtime"
	"time"
)

type vtimer struct {
	when  int64
	seq   int
	label string
	fn    func()
	gone  bool
	// h is the happens-before hash of the goroutine that armed the timer
	h  uint64
	vc vclock
}

func (s *Sched) addTimer(when int64, label string, fn func()) *vtimer {
	if when < s.clock {
		when = s.clock
	}
	s.tseq++
	t := &vtimer{when: when, seq: s.tseq, label: label, fn: fn}
	if s.cur != nil {
		t.h = s.cur.h
		if s.cfg.Race {
			t.vc = s.cur.vc.clone()
			s.cur.vc = s.cur.vc.tick(s.cur.id)
		}
	}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sched) delTimer(t *vtimer) bool {
	for i, x := range s.timers {
		if x == t {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			t.gone = true
			return true
		}
	}
	return false
}

func (s *Sched) fireNext() {
	best := -1
	for i, t := range s.timers {
		if best < 0 || t.when < s.timers[best].when || (t.when == s.timers[best].when && t.seq < s.timers[best].seq) {
			best = i
		}
	}
	t := s.timers[best]
	s.timers = append(s.timers[:best], s.timers[best+1:]...)
	t.gone = true
	if t.when > s.clock {
		s.clock = t.when
	}
	if s.cfg.Trace {
		s.tr("timer fires: %s", t.label)
	}
	t.fn()
}

var base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// TimeNow is the virtual time.Now.
func TimeNow() time.Time {
	if S == nil {
		return base
	}
	return base.Add(time.Duration(S.clock))
}

// After is the virtual time.After.
func After(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }

// Timer mirrors time.Timer.
type Timer struct {
	C  *Chan[time.Time]
	t  *vtimer
	fn func()
}

func (t *Timer) arm(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	if d < 0 {
		d = 0
	}
	if t.fn != nil {
		f := t.fn
		t.t = s.addTimer(s.clock+int64(d), "AfterFunc", func() { goTimer(f) })
		return
	}
	c := t.C
	when := s.clock + int64(d)
	var vt *vtimer
	vt = s.addTimer(when, "timer", func() {
		if len(c.buf) == 0 {
			c.deliver(base.Add(time.Duration(when)), vt.vc)
		}
	})
	t.t = vt
}

func goTimer(f func()) {
	s := S
	g := s.newG("AfterFunc", f, false)
	_ = g
}

// NewTimer mirrors time.NewTimer (Go 1.23 semantics: Stop and Reset discard a stale value).
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: MakeChan[time.Time](1)}
	if S != nil && S.dead {
		return t
	}
	t.arm(d)
	return t
}

// AfterFunc mirrors time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	if S != nil && S.dead {
		return t
	}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	s := S
	if s == nil || s.dead || t.t == nil {
		return false
	}
	s.point("Timer.Stop")
	was := s.delTimer(t.t)
	if t.C != nil {
		t.C.buf, t.C.bvc = nil, nil
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	if S != nil && !S.dead {
		t.arm(d)
	}
	return was
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C      *Chan[time.Time]
	d      time.Duration
	t      *vtimer
	stoped bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: MakeChan[time.Time](1), d: d}
	if S != nil && !S.dead {
		t.arm(S.clock + int64(d))
	}
	return t
}

func (t *Ticker) arm(when int64) {
	s := S
	t.t = s.addTimer(when, "ticker", func() {
		if len(t.C.buf) == 0 {
			t.C.deliver(base.Add(time.Duration(when)), nil)
		}
		t.arm(when + int64(t.d))
	})
}

func (t *Ticker) Stop() {
	if S == nil || S.dead || t.t == nil {
		return
	}
	S.delTimer(t.t)
	t.C.buf, t.C.bvc = nil, nil
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	if S != nil && !S.dead {
		t.arm(S.clock + int64(d))
	}
}

// Sleep is the virtual time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		runtime.Goexit()
	}
	s.point("Sleep")
	g := s.cur
	s.addTimer(s.clock+int64(d), "sleep", func() { s.unblock(g) })
	s.block("sleep")
	g.h = mix(g.h, 71)
}

// Nap lets the explorer decide whether Config.Nap of virtual time goes by here,
// with everybody else going on meanwhile (a deviation).
func Nap() {
	s := S
	if s == nil || s.dead || s.cfg.Nap == 0 || ChooseDev(2) == 0 {
		return
	}
	s.naps++
	if s.cfg.Trace {
		s.tr("## nap of %v", s.cfg.Nap)
	}
	Sleep(s.cfg.Nap)
	s.naps--
}

// Naps is the number of naps being taken.
func Naps() int { return S.naps }

// Timeout runs fn (which must not block) after d; the result stops it.
func Timeout(d time.Duration, fn func()) (stop func()) {
	s := S
	if s == nil || s.dead {
		return func() {}
	}
	if d <= 0 {
		fn()
		return func() {}
	}
	t := s.addTimer(s.clock+int64(d), "timeout", fn)
	return func() {
		if S == s && !s.dead {
			s.delTimer(t)
		}
	}
}
