package vsim

import (
	"fmt"
	"sync"
	"unsafe"
)

// ---------------------------------------------------------------- locks

type waiter struct {
	t     *task
	write bool
}

// RWMutex has the semantics of sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	w       bool
	readers int
	queue   []*waiter
	rel     vclock // released by writers
	rrel    vclock // released by readers
	wOwner  int
}

func (m *RWMutex) pendingWriter() bool {
	for _, w := range m.queue {
		if w.write {
			return true
		}
	}
	return false
}

func (m *RWMutex) enqueue(s *Sim, write bool, what string) {
	w := &waiter{t: s.cur, write: write}
	m.queue = append(m.queue, w)
	s.block(what, 0)
}

func removeWaiter(q []*waiter, t *task) []*waiter {
	for i, w := range q {
		if w.t == t {
			return append(q[:i:i], q[i+1:]...)
		}
	}
	return q
}

func (m *RWMutex) wakeAll(s *Sim) {
	for _, w := range m.queue {
		if w.t.state == tsBlocked {
			w.t.state = tsReady
		}
	}
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil || s.lent {
		return
	}
	s.point(kindSync, siteLock)
	if s.dead {
		return
	}
	first := true
	for m.w || m.readers > 0 {
		if s.inMain {
			if s.help() {
				continue
			}
			s.mainStuck("write lock")
			return
		}
		if first {
			first = false
			m.queue = append(m.queue, &waiter{t: s.cur, write: true})
		}
		s.block("a write lock", siteLock)
		if s.dead {
			return
		}
	}
	if !first {
		m.queue = removeWaiter(m.queue, s.cur)
	}
	m.w = true
	m.wOwner = s.cur.id
	s.cur.vc.join(&m.rel)
	s.cur.vc.join(&m.rrel)
}

func (m *RWMutex) TryLock() bool {
	s := S
	if s == nil || s.lent {
		return true
	}
	s.point(kindSync, siteLock)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.wOwner = s.cur.id
	s.cur.vc.join(&m.rel)
	s.cur.vc.join(&m.rrel)
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.lent {
		return
	}
	if s.dead {
		return
	}
	s.point(kindSync, siteUnlock)
	if s.dead {
		return
	}
	if !m.w {
		s.issue("lock", "unlock of unlocked mutex", "fatal: unlock of an unlocked mutex by "+s.cur.name+"\n"+stack())
		s.dead = true
		s.unwind(s.cur)
		return
	}
	m.w = false
	m.rel.copyFrom(&s.cur.vc)
	s.cur.vc.inc(s.cur.id)
	m.wakeAll(s)
	s.point(kindSync, siteUnlocked)
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil || s.lent {
		return
	}
	s.point(kindSync, siteRLock)
	if s.dead {
		return
	}
	first := true
	// a writer that waits keeps new readers out, but a reader that was already waiting when the
	// writer released goes first, as in sync.RWMutex
	passed := false
	for m.w || (!passed && m.pendingWriter()) {
		if s.inMain {
			if s.help() {
				continue
			}
			s.mainStuck("read lock")
			return
		}
		if first {
			first = false
			m.queue = append(m.queue, &waiter{t: s.cur})
		}
		s.block("a read lock", siteRLock)
		if s.dead {
			return
		}
		passed = true
	}
	if !first {
		m.queue = removeWaiter(m.queue, s.cur)
	}
	m.readers++
	s.cur.vc.join(&m.rel)
}

func (m *RWMutex) TryRLock() bool {
	s := S
	if s == nil || s.lent {
		return true
	}
	s.point(kindSync, siteRLock)
	if m.w || m.pendingWriter() {
		return false
	}
	m.readers++
	s.cur.vc.join(&m.rel)
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.lent {
		return
	}
	if s.dead {
		return
	}
	s.point(kindSync, siteUnlock)
	if s.dead {
		return
	}
	if m.readers <= 0 {
		s.issue("lock", "read unlock of unlocked mutex", "fatal: read unlock of an unlocked mutex by "+s.cur.name+"\n"+stack())
		s.dead = true
		s.unwind(s.cur)
		return
	}
	m.readers--
	m.rrel.join(&s.cur.vc)
	s.cur.vc.inc(s.cur.id)
	if m.readers == 0 {
		m.wakeWriters(s)
	}
	s.point(kindSync, siteUnlocked)
}

func (m *RWMutex) wakeWriters(s *Sim) {
	for _, w := range m.queue {
		if w.write && w.t.state == tsBlocked {
			w.t.state = tsReady
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Held tells if somebody holds the lock (for oracles at quiescence).
func (m *RWMutex) Held() bool { return m.w || m.readers > 0 }

// Mutex has the semantics of sync.Mutex.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Held() bool    { return m.m.Held() }

// mainStuck: the setup or probing phase needs a lock that a finished task left held.
func (s *Sim) mainStuck(what string) {
	if s.lent {
		panic("deadlock outside of the simulation: an operation waits for a " + what + " for ever")
	}
	s.issue("deadlock", "a lock stays held after all tasks finished", fmt.Sprintf("deadlock: after all tasks finished, an operation waits for a %s for ever", what))
	s.dead = true
	s.unwind(s.cur)
}

var (
	siteLock, siteRLock, siteUnlock, siteUnlocked, siteWG, siteOnce, siteCond, siteAtomic, siteChan, siteSyncMap, siteOp int
)

func init() {
	b := Register([]string{"vsim lock", "vsim rlock", "vsim unlock", "vsim unlocked", "vsim waitgroup", "vsim once", "vsim cond", "vsim atomic", "vsim chan", "vsim syncmap", "client op"})
	siteLock, siteRLock, siteUnlock, siteUnlocked, siteWG, siteOnce, siteCond, siteAtomic, siteChan, siteSyncMap, siteOp =
		b, b+1, b+2, b+3, b+4, b+5, b+6, b+7, b+8, b+9, b+10
}

// SiteOp is the scheduling point between the operations of a client.
func SiteOp() int { return siteOp }

// ---------------------------------------------------------------- WaitGroup, Once, Cond

type WaitGroup struct {
	n       int
	rel     vclock
	waiters []*task
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil {
		w.n += d
		return
	}
	s.point(kindSync, siteWG)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.rel.join(&s.cur.vc)
		s.cur.vc.inc(s.cur.id)
	}
	if w.n == 0 {
		for _, t := range w.waiters {
			if t.state == tsBlocked {
				t.state = tsReady
			}
		}
		w.waiters = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(siteWG, func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		return
	}
	s.point(kindSync, siteWG)
	for w.n > 0 && !s.dead {
		if s.inMain {
			if s.help() {
				continue
			}
			s.mainStuck("WaitGroup")
			return
		}
		w.waiters = append(w.waiters, s.cur)
		s.block("a WaitGroup", siteWG)
	}
	s.cur.vc.join(&w.rel)
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if S == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type Cond struct {
	L       sync.Locker
	waiters []*task
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	c.waiters = append(c.waiters, t)
	woken := func() bool {
		for _, x := range c.waiters {
			if x == t {
				return false
			}
		}
		return true
	}
	c.L.Unlock()
	for !woken() && !s.dead {
		if s.inMain {
			if s.help() {
				continue
			}
			s.mainStuck("Cond")
			return
		}
		s.block("a Cond", siteCond)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := S
	if s == nil {
		return
	}
	s.point(kindSync, siteCond)
	if len(c.waiters) > 0 {
		t := c.waiters[0]
		c.waiters = append([]*task(nil), c.waiters[1:]...)
		if t.state == tsBlocked {
			t.state = tsReady
		}
	}
}

func (c *Cond) Broadcast() {
	s := S
	if s == nil {
		return
	}
	s.point(kindSync, siteCond)
	for _, t := range c.waiters {
		if t.state == tsBlocked {
			t.state = tsReady
		}
	}
	c.waiters = nil
}

// ---------------------------------------------------------------- sync.Map, sync.Pool

// acqrel is the ordering of an atomic operation on p.
func acqrel(p unsafe.Pointer, vc *vclock, site int) *Sim {
	s := S
	if s == nil {
		return nil
	}
	s.point(kindSync, site)
	if s.dead {
		return s
	}
	s.cur.vc.join(vc)
	vc.join(&s.cur.vc)
	s.cur.vc.inc(s.cur.id)
	return s
}

type Map struct {
	m  map[any]any
	ks []any
	vc vclock
}

func (m *Map) op() {
	acqrel(nil, &m.vc, siteSyncMap)
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}
func (m *Map) drop(k any) {
	delete(m.m, k)
	for i, x := range m.ks {
		if x == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			return
		}
	}
}
func (m *Map) Store(k, v any) { m.op(); m.put(k, v) }
func (m *Map) Clear()         { m.op(); m.m = map[any]any{}; m.ks = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	if ok {
		m.drop(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if c, ok := m.m[k]; ok && c == o {
		m.drop(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	ks := append([]any(nil), m.ks...)
	if s := S; s != nil && s.cfg.MapOrder {
		for i := 0; i < len(ks)-1; i++ {
			j := i + s.Choose("map", len(ks)-i, 1, 2)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		m.op()
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

type Pool struct {
	New func() any
	l   []any
	vc  vclock
}

func (p *Pool) Get() any {
	acqrel(nil, &p.vc, siteSyncMap)
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	acqrel(nil, &p.vc, siteSyncMap)
	p.l = append(p.l, x)
}
