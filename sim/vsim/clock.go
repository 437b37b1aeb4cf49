package vsim

import (
	"fmt"
	"time"
	"unsafe"
)

// The simulated clock has two hands, as the real one: a monotonic one, which only moves forward, and a wall one,
// which can also be stepped. time.Time values made here carry both, as the ones of the real time.Now do.

type timeLayout struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const hasMonotonic = 1 << 63

// unix seconds of 1885-01-01, the base of the wall field
const wallBase = -2682288000

func makeTime(wallNs, mono int64) time.Time {
	var t time.Time
	l := (*timeLayout)(unsafe.Pointer(&t))
	sec := wallNs / 1e9
	ns := wallNs % 1e9
	if ns < 0 {
		ns += 1e9
		sec--
	}
	l.wall = hasMonotonic | uint64(sec-wallBase)<<30 | uint64(ns)
	l.ext = mono
	l.loc = time.Local
	return t
}

// CheckClock verifies that made-up times behave as expected on this Go version.
func CheckClock() error {
	w := int64(1700000000) * 1e9
	a := makeTime(w+5, 100)
	b := makeTime(w-3600e9, 1100)
	if a.UnixNano() != w+5 || b.UnixNano() != w-3600e9 {
		return fmt.Errorf("wall clock layout: %d %d", a.UnixNano(), b.UnixNano())
	}
	if b.Sub(a) != 1000 || !a.Before(b) || !b.After(a) || a.Add(1000) != a.Add(1000) || a.Add(1000).Before(b) || a.Add(999).After(b) {
		return fmt.Errorf("monotonic clock layout: %v", b.Sub(a))
	}
	if unsafe.Sizeof(a) != unsafe.Sizeof(timeLayout{}) {
		return fmt.Errorf("size of time.Time")
	}
	r := time.Now()
	if (*timeLayout)(unsafe.Pointer(&r)).wall&hasMonotonic == 0 {
		return fmt.Errorf("real time.Now has no monotonic reading")
	}
	return nil
}

// latest is the run whose clock is read when the simulator is out of the way.
var latest *Sim

// Now is time.Now.
func Now() time.Time {
	s := S
	if s == nil || s.lent {
		if latest != nil {
			return makeTime(latest.wall, latest.mono)
		}
		return makeTime(1600000000*1e9, 1)
	}
	s.NowCalls++
	s.mono += s.cfg.NowStep
	s.wall += s.cfg.NowStep
	return makeTime(s.wall, s.mono)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Mono is the monotonic clock, without a scheduling point or an advance.
func (s *Sim) Mono() int64 { return s.mono }

// Advance moves time forward; sleepers and timers that are due wake up.
func (s *Sim) Advance(d int64) {
	if d < 0 {
		return
	}
	s.mono += d
	s.wall += d
	for s.fireDue() {
	}
}

// StepWall moves the wall clock alone (an administrator or NTP sets the clock).
func (s *Sim) StepWall(d int64) { s.wall += d }

type simTimer struct {
	at   int64
	seq  int
	f    func()
	dead bool
}

func (s *Sim) addTimer(d int64, f func()) *simTimer {
	if d < 0 {
		d = 0
	}
	t := &simTimer{at: s.mono + d, seq: len(s.timers), f: f}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sim) nextTimer() *simTimer {
	var b *simTimer
	for _, t := range s.timers {
		if !t.dead && (b == nil || t.at < b.at || (t.at == b.at && t.seq < b.seq)) {
			b = t
		}
	}
	return b
}

func (s *Sim) fireDue() bool {
	t := s.nextTimer()
	if t == nil || t.at > s.mono {
		return false
	}
	t.dead = true
	t.f()
	return true
}

// fireTimer is called when nobody can run: time jumps to the next timer.
func (s *Sim) fireTimer() bool {
	t := s.nextTimer()
	if t == nil {
		return false
	}
	if t.at > s.mono {
		s.wall += t.at - s.mono
		s.mono = t.at
	}
	return s.fireDue()
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	s.point(kindSync, siteOp)
	if s.inMain {
		s.Advance(int64(d))
		return
	}
	t := s.cur
	done := false
	s.addTimer(int64(d), func() {
		done = true
		if t.state == tsBlocked {
			t.state = tsReady
		}
	})
	for !done && !s.dead {
		s.block("a sleep", siteOp)
	}
}

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	ch chan time.Time
	t  *simTimer
	f  func()
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	tm := &Timer{C: ch, ch: ch}
	tm.arm(d)
	return tm
}

func (tm *Timer) arm(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	tm.t = s.addTimer(int64(d), func() {
		if tm.f != nil {
			s.spawnLate(tm.f)
			return
		}
		trySend(s, s.chanAt(*(*unsafe.Pointer)(unsafe.Pointer(&tm.ch)), cap(tm.ch)), tm.ch, makeTime(s.wall, s.mono))
	})
}

func (s *Sim) spawnLate(f func()) {
	old := s.cur
	s.spawn(fmt.Sprintf("timer%d", len(s.tasks)), f)
	s.cur = old
}

func AfterFunc(d time.Duration, f func()) *Timer {
	tm := &Timer{f: f}
	tm.arm(d)
	return tm
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (tm *Timer) Stop() bool {
	if tm.t == nil || tm.t.dead {
		return false
	}
	tm.t.dead = true
	return true
}

func (tm *Timer) Reset(d time.Duration) bool {
	r := tm.Stop()
	tm.arm(d)
	return r
}

// Ticker is time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	ch chan time.Time
	d  time.Duration
	t  *simTimer
}

func NewTicker(d time.Duration) *Ticker {
	ch := make(chan time.Time, 1)
	tk := &Ticker{C: ch, ch: ch, d: d}
	tk.arm()
	return tk
}

func (tk *Ticker) arm() {
	s := S
	if s == nil {
		return
	}
	tk.t = s.addTimer(int64(tk.d), func() {
		trySend(s, s.chanAt(*(*unsafe.Pointer)(unsafe.Pointer(&tk.ch)), cap(tk.ch)), tk.ch, makeTime(s.wall, s.mono))
		tk.arm()
	})
}

func (tk *Ticker) Stop() {
	if tk.t != nil {
		tk.t.dead = true
	}
}

func (tk *Ticker) Reset(d time.Duration) { tk.Stop(); tk.d = d; tk.arm() }

// TickChan is time.Tick.
func TickChan(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
