package vsim

import (
	"fmt"
	"unsafe"
)

// ---------------------------------------------------------------- vector clocks

type vclock struct{ c []uint32 }

func (v *vclock) get(i int) uint32 {
	if i < len(v.c) {
		return v.c[i]
	}
	return 0
}

func (v *vclock) set(i int, x uint32) {
	for len(v.c) <= i {
		v.c = append(v.c, 0)
	}
	v.c[i] = x
}

func (v *vclock) inc(i int) { v.set(i, v.get(i)+1) }

func (v *vclock) join(o *vclock) {
	for len(v.c) < len(o.c) {
		v.c = append(v.c, 0)
	}
	for i, x := range o.c {
		if x > v.c[i] {
			v.c[i] = x
		}
	}
}

func (v *vclock) copyFrom(o *vclock) {
	v.c = append(v.c[:0], o.c...)
}

// ---------------------------------------------------------------- shadow memory

type access struct {
	t    int
	c    uint32
	site int
}

// cell is the access history of one machine word (or of one map as a whole).
type cell struct {
	w     access
	hasW  bool
	reads []access
	multi bool // used by more than one task
	owner int
}

func (s *Sim) cellAt(p unsafe.Pointer) *cell {
	c := s.mem[p]
	if c == nil {
		c = &cell{owner: s.cur.id}
		s.mem[p] = c
	} else if c.owner != s.cur.id {
		c.multi = true
	}
	return c
}

// shared tells if another task has used this word before (for the conflict-directed strategy).
func (s *Sim) shared(p unsafe.Pointer) int {
	if !s.cfg.Conflict {
		return kindMem
	}
	if c := s.mem[p]; c != nil && (c.multi || c.owner != s.cur.id) {
		return kindMemShared
	}
	return kindMem
}

func (s *Sim) recRead(p unsafe.Pointer, site int) {
	c := s.cellAt(p)
	t := s.cur
	if c.hasW && c.w.t != t.id && c.w.c > t.vc.get(c.w.t) {
		s.race(c.w, "write", site, "read")
	}
	my := t.vc.get(t.id)
	for i := range c.reads {
		if c.reads[i].t == t.id {
			c.reads[i].c = my
			c.reads[i].site = site
			return
		}
	}
	c.reads = append(c.reads, access{t.id, my, site})
}

func (s *Sim) recWrite(p unsafe.Pointer, site int) {
	c := s.cellAt(p)
	t := s.cur
	if c.hasW && c.w.t != t.id && c.w.c > t.vc.get(c.w.t) {
		s.race(c.w, "write", site, "write")
	}
	for _, r := range c.reads {
		if r.t != t.id && r.c > t.vc.get(r.t) {
			s.race(r, "read", site, "write")
		}
	}
	c.reads = c.reads[:0]
	c.hasW = true
	c.w = access{t.id, t.vc.get(t.id), site}
}

func (s *Sim) race(prev access, pk string, site int, k string) {
	a := pk + " at " + SiteSig(prev.site)
	b := k + " at " + SiteSig(site)
	if b < a {
		a, b = b, a
	}
	s.issue("race", a+" / "+b, fmt.Sprintf("data race: %s by %s at %s, then %s by %s at %s, with nothing ordering them",
		pk, s.tasks[prev.t].name, SiteName(prev.site), k, s.cur.name, SiteName(site)))
}

const maxWords = 24

func (s *Sim) access(p unsafe.Pointer, size uintptr, site int, write bool) {
	if s.dead {
		return
	}
	n := int((size + 7) / 8)
	if n > maxWords {
		n = maxWords
	}
	if n == 0 {
		return // zero sized: no memory
	}
	base := p
	if size < 8 {
		// smaller than a word: the exact address, so that neighbours in one word stay apart
		n = 1
	}
	for i := 0; i < n; i++ {
		q := unsafe.Add(base, i*8)
		if write {
			s.recWrite(q, site)
		} else {
			s.recRead(q, site)
		}
	}
}

// R is a read of *p.
func R[T any](p *T, site int) *T {
	s := S
	if s == nil || p == nil {
		return p
	}
	s.point(s.shared(unsafe.Pointer(p)), site)
	s.access(unsafe.Pointer(p), unsafe.Sizeof(*p), site, false)
	return p
}

// W is a write of *p: the returned function stores.
func W[T any](p *T, site int) func(T) {
	return func(v T) {
		if s := S; s != nil && p != nil {
			s.point(s.shared(unsafe.Pointer(p)), site)
			s.access(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
		}
		*p = v
	}
}

// X is a read-write of *p by code that is not instrumented (a method of a library type).
func X[T any](p *T, site int) *T {
	s := S
	if s == nil || p == nil {
		return p
	}
	s.point(s.shared(unsafe.Pointer(p)), site)
	s.access(unsafe.Pointer(p), 8, site, true)
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR is a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	s := S
	if s == nil || m == nil {
		return m
	}
	p := mapPtr(m)
	s.point(s.shared(p), site)
	if !s.dead {
		s.recRead(p, site)
	}
	return m
}

func (s *Sim) mapWrite(p unsafe.Pointer, site int) {
	s.point(s.shared(p), site)
	if !s.dead {
		s.recWrite(p, site)
	}
}

// MS is m[k] = v.
func MS[M ~map[K]V, K comparable, V any](m M, site int) func(K) func(V) {
	return func(k K) func(V) {
		return func(v V) {
			if s := S; s != nil && m != nil {
				s.mapWrite(mapPtr(m), site)
			}
			noteKey(k)
			m[k] = v
		}
	}
}

// MD is delete(m, k).
func MD[M ~map[K]V, K comparable, V any](m M, site int) func(K) {
	return func(k K) {
		if s := S; s != nil && m != nil {
			s.mapWrite(mapPtr(m), site)
		}
		delete(m, k)
	}
}

// MClear is clear(m).
func MClear[M ~map[K]V, K comparable, V any](m M, site int) {
	if s := S; s != nil && m != nil {
		s.mapWrite(mapPtr(m), site)
	}
	for k := range m {
		delete(m, k)
	}
}

// Cell is one key of a map, for m[k] op= v.
type Cell[K comparable, V any] struct {
	m    map[K]V
	k    K
	site int
}

func MC[M ~map[K]V, K comparable, V any](m M, site int) func(K) Cell[K, V] {
	return func(k K) Cell[K, V] { return Cell[K, V]{m, k, site} }
}

func (c Cell[K, V]) Get() V { return MR(c.m, c.site)[c.k] }
func (c Cell[K, V]) Set(v V) {
	MS(c.m, c.site)(c.k)(v)
}

// A is append(s, xs...).
func A[S ~[]E, E any](sl S, site int) func(...E) S {
	return func(xs ...E) S {
		s := S_()
		if s == nil || len(xs) == 0 {
			return append(sl, xs...)
		}
		var z E
		sz := unsafe.Sizeof(z)
		if cap(sl)-len(sl) >= len(xs) {
			ext := sl[:len(sl)+len(xs)]
			s.point(kindMem, site)
			for i := range xs {
				s.access(unsafe.Pointer(&ext[len(sl)+i]), sz, site, true)
			}
		} else if len(sl) > 0 {
			s.point(s.shared(unsafe.Pointer(&sl[0])), site)
			for i := range sl {
				s.access(unsafe.Pointer(&sl[i]), sz, site, false)
			}
		}
		return append(sl, xs...)
	}
}

// S_ exists because a type parameter named S hides the variable.
func S_() *Sim { return S }

// Copy is copy(dst, src).
func Copy[D ~[]E, E any](dst D, src []E, site int) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	SR(src[:n], site)
	SW(dst[:n], site)
	return copy(dst, src)
}

// SR is a read of all the elements of a slice by code that is not instrumented.
func SR[T ~[]E, E any](sl T, site int) T {
	s := S
	if s == nil || len(sl) == 0 {
		return sl
	}
	s.point(s.shared(unsafe.Pointer(&sl[0])), site)
	for i := range sl {
		s.access(unsafe.Pointer(&sl[i]), unsafe.Sizeof(sl[i]), site, false)
	}
	return sl
}

// SW is a write of all the elements of a slice by code that is not instrumented.
func SW[T ~[]E, E any](sl T, site int) T {
	s := S
	if s == nil || len(sl) == 0 {
		return sl
	}
	s.point(s.shared(unsafe.Pointer(&sl[0])), site)
	for i := range sl {
		s.access(unsafe.Pointer(&sl[i]), unsafe.Sizeof(sl[i]), site, true)
	}
	return sl
}

// ---------------------------------------------------------------- iteration

// MapIt iterates over a map in a seeded order.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	site int
	more bool
}

// MapIter starts an iteration. The order is sorted, then permuted by the seed.
func MapIter[M ~map[K]V, K comparable, V any](m M, site int) (K, V, *MapIt[K, V]) {
	var k K
	var v V
	it := &MapIt[K, V]{m: m, site: site}
	MR(m, site)
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if s := S; s != nil && s.cfg.MapOrder && len(it.keys) > 1 {
		// Fisher-Yates with recorded choices; 0 keeps the sorted order
		for i := 0; i < len(it.keys)-1; i++ {
			j := i + s.Choose("map", len(it.keys)-i, 1, 2)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return k, v, it
}

// Next moves to the next key that is still in the map.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	Tick(it.site)
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		vv, ok := MR(it.m, it.site)[kk]
		if ok {
			*k, *v = kk, vv
			return true
		}
	}
	return it.late() && it.Next(k, v)
}

// late decides about entries that were added during the iteration: Go may produce them or not.
func (it *MapIt[K, V]) late() bool {
	s := S_()
	if s == nil || s.dead || it.more || len(it.keys) == 0 {
		return false
	}
	it.more = true
	n := 0
	for _, k := range it.keys {
		if _, ok := it.m[k]; ok {
			n++
		}
	}
	if len(it.m) <= n {
		return false
	}
	seen := make(map[K]bool, len(it.keys))
	for _, k := range it.keys {
		seen[k] = true
	}
	var l []K
	for k := range it.m {
		if !seen[k] {
			l = append(l, k)
		}
	}
	sortKeys(l)
	for _, k := range l {
		if s.Choose("late", 2, 1, 2) == 1 {
			it.keys = append(it.keys, k)
		}
	}
	return it.i < len(it.keys)
}

// SliceIt iterates over a slice, each element being a read.
type SliceIt[E any] struct {
	s    []E
	i    int
	site int
	val  bool
}

func SliceIter[T ~[]E, E any](sl T, site int, val bool) (int, E, *SliceIt[E]) {
	var e E
	return 0, e, &SliceIt[E]{s: sl, site: site, val: val}
}

func (it *SliceIt[E]) Next(i *int, e *E) bool {
	Tick(it.site)
	if it.i >= len(it.s) {
		return false
	}
	*i = it.i
	if it.val {
		*e = *R(&it.s[it.i], it.site)
	}
	it.i++
	return true
}
