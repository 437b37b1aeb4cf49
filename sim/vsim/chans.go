package vsim

import "unsafe"

// Channels keep their Go type. What a buffered channel holds stays in the real channel; the simulator decides who waits
// and keeps the clocks in a side table. Unbuffered channels hand over through the side table, from one waiting operation
// to another, as the runtime does.

type chanState struct {
	cap int
	vc  vclock
	// tasks waiting for anything to change on this channel
	waiters []*task
	// unbuffered: operations that wait for a partner
	recvq, sendq []*chanEnd
}

// waiting is one blocked channel operation or select statement.
type waiting struct {
	t    *task
	done bool
	i    int // the case that was served
	v    any
	ok   bool
	shut bool // a send whose channel was closed
}

// chanEnd is its place in the queue of one channel.
type chanEnd struct {
	w *waiting
	i int
	v any // to be sent
}

func (s *Sim) chanAt(p unsafe.Pointer, capacity int) *chanState {
	c := s.chans[p]
	if c == nil {
		c = &chanState{cap: capacity}
		s.chans[p] = c
	}
	return c
}

func (c *chanState) changed() {
	for _, t := range c.waiters {
		wake(t)
	}
	c.waiters = nil
}

func wake(t *task) {
	if t.state == tsBlocked {
		t.state = tsReady
	}
}

func (w *waiting) serve(i int, v any, ok bool) {
	w.done, w.i, w.v, w.ok = true, i, v, ok
	wake(w.t)
}

// partner takes the first operation of a queue that still waits.
func partner(q *[]*chanEnd) *chanEnd {
	for len(*q) > 0 {
		e := (*q)[0]
		*q = append([]*chanEnd(nil), (*q)[1:]...)
		if !e.w.done {
			return e
		}
	}
	return nil
}

// meet orders the two sides of a hand-over: each happens before what the other does next.
func (s *Sim) meet(o *task) {
	a, b := &s.cur.vc, &o.vc
	a.join(b)
	b.join(a)
	a.inc(s.cur.id)
	b.inc(o.id)
}

func trySend[T any](s *Sim, c *chanState, ch chan<- T, v T) bool {
	if c.cap > 0 {
		select {
		case ch <- v:
		default:
			return false
		}
		c.vc.join(&s.cur.vc)
		s.cur.vc.inc(s.cur.id)
		c.changed()
		return true
	}
	select {
	case ch <- v: // only to panic if it is closed: nobody ever waits on the real channel
	default:
	}
	e := partner(&c.recvq)
	if e == nil {
		return false
	}
	s.meet(e.w.t)
	e.w.serve(e.i, v, true)
	return true
}

func tryRecv[T any](s *Sim, c *chanState, ch <-chan T) (v T, ok, done bool) {
	if c.cap == 0 {
		if e := partner(&c.sendq); e != nil {
			v, _ = e.v.(T)
			s.meet(e.w.t)
			e.w.serve(e.i, nil, false)
			return v, true, true
		}
	}
	select {
	case v, ok = <-ch:
		s.cur.vc.join(&c.vc)
		c.changed()
		return v, ok, true
	default:
	}
	return v, false, false
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	if S == nil {
		ch <- v
		return
	}
	sel(false, "a channel send", SelSend(ch, v))
}

// Recv2 is v, ok = <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	r := sel(false, "a channel receive", SelRecv(ch))
	v, _ := r.V.(T)
	return v, r.OK
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// CloseChan is close(ch).
func CloseChan[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	s.point(kindSync, siteChan)
	c := s.chanAt(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	close(ch)
	c.vc.join(&s.cur.vc)
	for e := partner(&c.recvq); e != nil; e = partner(&c.recvq) {
		e.w.t.vc.join(&s.cur.vc)
		e.w.serve(e.i, nil, false)
	}
	for e := partner(&c.sendq); e != nil; e = partner(&c.sendq) {
		e.w.shut = true
		e.w.serve(e.i, nil, false)
	}
	s.cur.vc.inc(s.cur.id)
	c.changed()
}

// LenChan is len(ch).
func LenChan[T any](ch <-chan T) int {
	if s := S; s != nil {
		s.point(kindSync, siteChan)
	}
	return len(ch)
}

// SelCase is one case of a select statement.
type SelCase struct {
	p    unsafe.Pointer
	cap  int
	send bool
	v    any
	try  func(s *Sim, c *chanState) (v any, ok, done bool)
	real func() (v any, ok, done bool)
}

func SelSend[T any](ch chan<- T, v T) SelCase {
	return SelCase{*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), true, v,
		func(s *Sim, c *chanState) (any, bool, bool) { return nil, false, trySend(s, c, ch, v) },
		func() (any, bool, bool) {
			select {
			case ch <- v:
				return nil, false, true
			default:
				return nil, false, false
			}
		}}
}

func SelRecv[T any](ch <-chan T) SelCase {
	return SelCase{*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), false, nil,
		func(s *Sim, c *chanState) (any, bool, bool) {
			v, ok, done := tryRecv(s, c, ch)
			return v, ok, done
		},
		func() (any, bool, bool) {
			select {
			case v, ok := <-ch:
				return v, ok, true
			default:
				return nil, false, false
			}
		}}
}

// SelResult is what a select statement ended with.
type SelResult struct {
	I  int
	V  any
	OK bool
}

// SelVal is the received value of a select case.
func SelVal[T any](ch <-chan T, r SelResult) T {
	v, _ := r.V.(T)
	return v
}

// Select runs a select statement; def tells if there is a default case (index -1).
func Select(def bool, cases ...SelCase) SelResult {
	if S == nil {
		for i, c := range cases {
			if v, ok, done := c.real(); done {
				return SelResult{I: i, V: v, OK: ok}
			}
		}
		if def {
			return SelResult{I: -1}
		}
		panic("vsim: select outside of a simulation")
	}
	return sel(def, "a select", cases...)
}

func sel(def bool, why string, cases ...SelCase) SelResult {
	s := S
	s.point(kindSync, siteChan)
	for !s.dead {
		n := len(cases)
		start := 0
		if n > 1 {
			start = s.Choose("select", n, 1, 2)
		}
		for k := 0; k < n; k++ {
			i := (start + k) % n
			c := cases[i]
			if c.p == nil {
				continue
			}
			if v, ok, done := c.try(s, s.chanAt(c.p, c.cap)); done {
				return SelResult{I: i, V: v, OK: ok}
			}
		}
		if def {
			return SelResult{I: -1}
		}
		if s.inMain {
			if s.help() {
				continue
			}
			s.mainStuck(why)
			return SelResult{I: -1}
		}
		w := &waiting{t: s.cur}
		for i, c := range cases {
			if c.p == nil {
				continue
			}
			cs := s.chanAt(c.p, c.cap)
			switch {
			case c.cap > 0:
				cs.waiters = append(cs.waiters, s.cur)
			case c.send:
				cs.sendq = append(cs.sendq, &chanEnd{w, i, c.v})
			default:
				cs.recvq = append(cs.recvq, &chanEnd{w, i, nil})
			}
		}
		s.block(why, siteChan)
		if w.done {
			if w.shut {
				panic("send on closed channel")
			}
			return SelResult{I: w.i, V: w.v, OK: w.ok}
		}
		w.done = true // out of all queues
	}
	return SelResult{I: -1}
}
