package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"vsim"
)

// ---------------------------------------------------------------- the two caches

type cacheAPI interface {
	Set(string, interface{})
	Get(string) (interface{}, bool)
	Del(string)
	Count() int
	Clean(int) int
	Verify() int
	Flush()
}

func newCache(ver, max int, expire time.Duration, val func(string, time.Time) bool) (cacheAPI, func(string, time.Duration)) {
	if ver == 1 {
		c := x1.NewXCache("sim", max, expire)
		c.Validator = val
		return c, func(string, time.Duration) {}
	}
	c := x2.NewXCache("sim", max, expire)
	c.Validator = val
	return c, c.SetTTL
}

// ---------------------------------------------------------------- model

type inst struct {
	key    string
	id     int
	lo, hi int64 // bounds of the creation time
	ttl    int64
	val    *Val
}

// cstate is the model cache: instances in the order of their use.
type cstate struct {
	l []inst
	p []pending // sorted by operation
}

// pending is what the model remembers about an operation between its steps.
type pending struct {
	op   int
	id   int    // the instance it looked at
	cnt  int    // Verify: what it removed
	snap []inst // Verify: what was there
}

func (s *cstate) copy() *cstate {
	n := &cstate{l: make([]inst, len(s.l), len(s.l)+1), p: s.p}
	copy(n.l, s.l)
	return n
}

func (s *cstate) pend(op int) (pending, bool) {
	for i := range s.p {
		if s.p[i].op == op {
			return s.p[i], true
		}
	}
	return pending{}, false
}

func (s *cstate) setPend(x pending) {
	p := make([]pending, 0, len(s.p)+1)
	done := false
	for _, y := range s.p {
		if !done && y.op >= x.op {
			p = append(p, x)
			done = true
		}
		if y.op != x.op {
			p = append(p, y)
		}
	}
	if !done {
		p = append(p, x)
	}
	s.p = p
}

func (s *cstate) delPend(op int) {
	p := make([]pending, 0, len(s.p))
	for _, y := range s.p {
		if y.op != op {
			p = append(p, y)
		}
	}
	s.p = p
}

func cstateKey(a any) string {
	s := a.(*cstate)
	b := make([]byte, 0, 256)
	num := func(n int64) {
		for n >= 0x80 || n < 0 {
			b = append(b, byte(n)|0x80)
			n = int64(uint64(n) >> 7)
		}
		b = append(b, byte(n))
	}
	for i := range s.l {
		x := &s.l[i]
		num(int64(x.id))
		num(x.ttl)
		num(x.hi - x.lo)
		num(x.lo & 0xffffff)
	}
	b = append(b, '|')
	for i := range s.p {
		x := &s.p[i]
		num(int64(x.op))
		num(int64(x.id))
		num(int64(x.cnt))
		for j := range x.snap {
			num(int64(x.snap[j].id))
		}
		b = append(b, '/')
	}
	return string(b)
}

func (s *cstate) find(key string) int {
	for i := range s.l {
		if s.l[i].key == key {
			return i
		}
	}
	return -1
}

func (s *cstate) remove(i int) { s.l = append(s.l[:i:i], s.l[i+1:]...) }
func (s *cstate) touch(i int) {
	x := s.l[i]
	s.remove(i)
	s.l = append(s.l, x)
}

func (s *cstate) String() string {
	var l []string
	for _, i := range s.l {
		t := i.key + "=" + i.val.S
		if i.ttl != 0 {
			t += fmt.Sprintf("(ttl %d)", i.ttl)
		}
		l = append(l, t)
	}
	return "[" + strings.Join(l, " ") + "] least recently used first"
}

type cmodel struct {
	max    int
	expire int64
	ver    int
	incon  bool // too many possibilities: not decided
}

func (m *cmodel) mayExpired(i *inst, t1 int64) bool {
	return (i.ttl != 0 && i.lo+i.ttl < t1) || (m.expire != 0 && i.lo+m.expire < t1)
}

func (m *cmodel) mayLive(i *inst, t0 int64) bool {
	return (i.ttl == 0 || i.hi+i.ttl >= t0) && (m.expire == 0 || i.hi+m.expire >= t0)
}

type cleaned struct {
	st *cstate
	n  int
}

// clean gives every possible result of a cleaning between t0 and t1; keep is an instance that is new.
func (m *cmodel) clean(s *cstate, perc int, t0, t1 int64, max int) []cleaned {
	var amb []int
	base := s.copy()
	n := 0
	base.l = nil
	for i := range s.l {
		x := s.l[i]
		if m.mayExpired(&x, t1) {
			if !m.mayLive(&x, t0) {
				n++
				continue
			}
			amb = append(amb, len(base.l))
		}
		base.l = append(base.l, x)
	}
	if len(amb) > 5 {
		m.incon = true
		amb = amb[:5]
	}
	var out []cleaned
	for mask := 0; mask < 1<<uint(len(amb)); mask++ {
		st := base.copy()
		k := n
		for j := len(amb) - 1; j >= 0; j-- {
			if mask&(1<<uint(j)) != 0 {
				st.remove(amb[j])
				k++
			}
		}
		num := len(st.l) * perc / 100
		if num < 0 {
			num = 0
		}
		if max > 0 && len(st.l)-num > max {
			num = len(st.l) - max
		}
		if num > len(st.l) {
			num = len(st.l)
		}
		k += num
		st.l = append([]inst(nil), st.l[num:]...)
		out = append(out, cleaned{st, k})
	}
	return out
}

// vcall is one call of the validator stub.
type vcall struct {
	key      string
	ctime    int64
	res      int // 1 valid, 0 rejected, -1 panicked
	inv, ret int64
}

// build turns the recorded operations into steps.
func (m *cmodel) build(recs []*Rec, validator bool) []item {
	var items []item
	add := func(inv, ret int64, desc string, f func(st *cstate) []*cstate, preds ...int) int {
		items = append(items, item{inv: inv, ret: ret, preds: preds, desc: desc, apply: func(a any) []any {
			var l []any
			for _, s := range f(a.(*cstate)) {
				l = append(l, s)
			}
			return l
		}})
		return len(items) - 1
	}
	one := func(s *cstate) []*cstate { return []*cstate{s} }
	for id, r := range recs {
		id, r := id, r
		if !r.Done && r.Ret == 0 {
			continue
		}
		var calls []*vcall
		if x, ok := r.Extra.([]*vcall); ok {
			calls = x
		}
		d := r.Op.String()
		switch r.Op.K {
		case "set":
			v, _ := r.Extra.(*Val)
			add(r.Inv, r.Ret, d, func(s *cstate) []*cstate {
				n := s.copy()
				if i := n.find(r.Op.A); i >= 0 {
					n.remove(i)
				}
				n.l = append(n.l, inst{key: r.Op.A, id: id, lo: r.T0, hi: r.T1, val: v})
				if m.max > 0 && len(n.l) >= m.max {
					var out []*cstate
					for _, c := range m.clean(n, 10, r.T0, r.T1, m.max) {
						out = append(out, c.st)
					}
					return out
				}
				return one(n)
			})
		case "del":
			add(r.Inv, r.Ret, d, func(s *cstate) []*cstate {
				if i := s.find(r.Op.A); i >= 0 {
					n := s.copy()
					n.remove(i)
					return one(n)
				}
				return one(s)
			})
		case "ttl":
			add(r.Inv, r.Ret, d, func(s *cstate) []*cstate {
				if i := s.find(r.Op.A); i >= 0 {
					n := s.copy()
					n.l[i].ttl = r.Op.N
					return one(n)
				}
				return one(s)
			})
		case "flush":
			add(r.Inv, r.Ret, d, func(s *cstate) []*cstate {
				n := s.copy()
				n.l = nil
				return one(n)
			})
		case "count":
			add(r.Inv, r.Ret, d, func(s *cstate) []*cstate {
				if r.Out[0].(int) != len(s.l) {
					return nil
				}
				return one(s)
			})
		case "clean":
			add(r.Inv, r.Ret, d, func(s *cstate) []*cstate {
				var out []*cstate
				for _, c := range m.clean(s, int(r.Op.N), r.T0, r.T1, 0) {
					if c.n == r.Out[0].(int) {
						out = append(out, c.st)
					}
				}
				return out
			})
		case "get":
			var call *vcall
			if len(calls) > 0 {
				call = calls[len(calls)-1]
			}
			lret, linv := r.Ret, r.Inv
			if call != nil {
				lret, linv = call.inv, call.ret
			}
			var val *Val
			var gone bool
			if r.Panic == "" {
				val, _ = r.Out[0].(*Val)
				gone = r.Out[1].(bool)
			}
			look := add(r.Inv, lret, "lookup of "+d, func(s *cstate) []*cstate {
				i := s.find(r.Op.A)
				if i < 0 {
					if call == nil && r.Panic == "" && val == nil && !gone {
						return one(s)
					}
					return nil
				}
				x := s.l[i]
				if call != nil && (call.ctime < x.lo || call.ctime > x.hi) {
					return nil
				}
				n := s.copy()
				if call != nil {
					n.l[i].lo, n.l[i].hi = call.ctime, call.ctime
				}
				n.setPend(pending{op: id, id: x.id})
				switch {
				case r.Panic != "":
					return one(n)
				case gone:
					if val == nil && ((call != nil && call.res == 0) || m.mayExpired(&x, r.T1)) {
						return one(n)
					}
				default:
					for _, c := range calls {
						if c.res == 0 && c.ctime == call.ctime {
							return nil // rejected, and served all the same
						}
					}
					if val == x.val && (!validator || (call != nil && call.res == 1)) && m.mayLive(&x, r.T0) {
						return one(n)
					}
				}
				return nil
			})
			add(linv, r.Ret, "effect of "+d, func(s *cstate) []*cstate {
				b, ok := s.pend(id)
				if !ok {
					return one(s)
				}
				n := s.copy()
				n.delPend(id)
				i := n.find(r.Op.A)
				if i < 0 {
					return one(n)
				}
				same := n.l[i].id == b.id
				switch {
				case r.Panic != "":
					return one(n)
				case gone:
					if same {
						n.remove(i)
					}
					return one(n)
				case same:
					n.touch(i)
					return one(n)
				}
				n2 := n.copy()
				n2.touch(i)
				return []*cstate{n, n2}
			}, look)
		case "verify":
			cret := r.Ret
			if len(calls) > 0 {
				cret = calls[0].inv
			}
			clean := add(r.Inv, cret, "cleaning of "+d, func(s *cstate) []*cstate {
				var out []*cstate
				for _, c := range m.clean(s, 0, r.T0, r.T1, 0) {
					n := c.st
					n.setPend(pending{op: id, cnt: c.n, snap: append([]inst(nil), n.l...)})
					out = append(out, n)
				}
				return out
			})
			preds := []int{clean}
			asked := make([]int, len(calls))
			for j, c := range calls {
				j, c := j, c
				bk := id*1000 + j + 1000000
				bind := add(r.Inv, c.inv, fmt.Sprintf("%s asks about %s", d, c.key), func(s *cstate) []*cstate {
					i := s.find(c.key)
					if i < 0 || c.ctime < s.l[i].lo || c.ctime > s.l[i].hi {
						return nil
					}
					n := s.copy()
					n.l[i].lo, n.l[i].hi = c.ctime, c.ctime
					n.setPend(pending{op: bk, id: s.l[i].id})
					return one(n)
				}, clean)
				last := bind
				if c.res == 0 {
					last = add(c.ret, r.Ret, fmt.Sprintf("%s removes %s", d, c.key), func(s *cstate) []*cstate {
						n := s.copy()
						b, _ := n.pend(bk)
						if i := n.find(c.key); i >= 0 && n.l[i].id == b.id {
							n.remove(i)
							p, _ := n.pend(id)
							p.cnt++
							n.setPend(p)
						}
						if r.Panic != "" {
							return []*cstate{s, n} // may have been left for the end
						}
						return one(n)
					}, bind)
				}
				preds = append(preds, last)
				asked[j] = bk
			}
			add(r.Inv, r.Ret, "end of "+d, func(s *cstate) []*cstate {
				n := s.copy()
				var as []int
				for _, bk := range asked {
					b, _ := n.pend(bk)
					as = append(as, b.id)
					n.delPend(bk)
				}
				p, _ := n.pend(id)
				n.delPend(id)
				if r.Panic != "" {
					return one(n)
				}
				if r.Out[0].(int) != p.cnt {
					return nil
				}
				if validator {
					for _, x := range n.l {
						for j := range p.snap {
							if p.snap[j].id == x.id && !contains(as, x.id) {
								return nil // still there and was never asked about
							}
						}
					}
				}
				return one(n)
			}, preds...)
		}
	}
	return items
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- world

const (
	valOn = 1 << iota
	valSlow
	valReenter
	valPanic
	valAdvance
)

// what a set stores, in N of the operation
const (
	setNew = iota
	setSame
	setList
	setNil
)

var oddKeys = []string{"", "k", "K", " k", "k ", "k\x00", "k>1", "é", "e\u0301", "0", "00", "-1", "%s%d", "nil", "k/1", "k.1", "k:1", "k=1", "k\n"}

// keyName gives the key number i: ordinary names, or names that are easily confused.
func keyName(set int64, i int) string {
	if set == 1 && i < len(oddKeys) {
		return oddKeys[i]
	}
	if set == 2 {
		return strings.Repeat("x", 300) + fmt.Sprint(i)
	}
	return fmt.Sprintf("k%d", i)
}

var cacheProps = []string{"C01", "C02", "C03", "C04", "C05"}

type injected struct{ what string }

func (i injected) String() string { return "injected panic: " + i.what }

func runCache(c *Ctx) {
	sc := c.Sc
	x1.LOG = sc.C["log"] != 0
	x2.LOG = sc.C["log"] != 0
	vm := sc.C["val"]
	var cache cacheAPI
	var setTTL func(string, time.Duration)
	depth := map[int]int{}
	keys := int(sc.C["keys"])
	if keys == 0 {
		keys = 3
	}
	nval := 0
	same := map[string]*Val{}
	var base time.Time
	c.Sim.Quiet(func() { base = vsim.Now() })
	baseMono := c.Sim.Mono()
	maxSeen := 0
	var do func(op Op, idx int)
	do = func(op Op, idx int) {
		switch op.K {
		case "set":
			nval++
			v := &Val{fmt.Sprintf("%s#%d", op.A, nval)}
			var stored any = v
			switch op.N {
			case setSame: // the very value stored before, again
				if same[op.A] == nil {
					same[op.A] = v
				}
				v = same[op.A]
				stored = v
			case setList: // a value that cannot be compared
				stored = []*Val{v}
			case setNil:
				v, stored = nil, nil
			}
			c.call(op, idx, func(r *Rec) []any { r.Extra = v; cache.Set(op.A, stored); return nil })
		case "get":
			c.call(op, idx, func(r *Rec) []any {
				v, b := cache.Get(op.A)
				if l, ok := v.([]*Val); ok && len(l) == 1 {
					v = l[0]
				}
				return []any{v, b}
			})
		case "del":
			c.call(op, idx, func(r *Rec) []any { cache.Del(op.A); return nil })
		case "ttl":
			if sc.Ver == 2 {
				c.call(op, idx, func(r *Rec) []any { setTTL(op.A, time.Duration(op.N)); return nil })
			}
		case "count":
			r := c.call(op, idx, func(r *Rec) []any { return []any{cache.Count()} })
			if r.Done && r.Panic == "" && r.Out[0].(int) > maxSeen {
				maxSeen = r.Out[0].(int)
			}
		case "clean":
			c.call(op, idx, func(r *Rec) []any { return []any{cache.Clean(int(op.N))} })
		case "verify":
			c.call(op, idx, func(r *Rec) []any { return []any{cache.Verify()} })
		case "flush":
			c.call(op, idx, func(r *Rec) []any { cache.Flush(); return nil })
		case "retain":
			retention(c, cache)
		default:
			panic("cache op " + op.K)
		}
	}
	var val func(string, time.Time) bool
	if vm&valOn != 0 {
		val = func(key string, ct time.Time) bool {
			t := vsim.CurrentTask()
			r := c.cur[t]
			vc := &vcall{key: key, ctime: baseMono + int64(ct.Sub(base)), inv: c.Sim.Seq(), res: -1}
			if r != nil {
				l, _ := r.Extra.([]*vcall)
				r.Extra = append(l, vc)
			}
			depth[t]++
			defer func() {
				depth[t]--
				vc.ret = c.Sim.Seq()
			}()
			if vm&valSlow != 0 {
				vsim.Yield()
				c.Res.Faults["slow-validator"]++
			}
			if vm&valAdvance != 0 && c.Sim.Choose("vadv", 2, 1, 4) == 1 {
				c.Sim.Advance(sc.C["vadv"])
				c.Res.Faults["clock-advance-in-validator"]++
			}
			if vm&valReenter != 0 && depth[t] == 1 {
				if n := c.Sim.Choose("reenter", 9, 2, 3); n > 0 {
					k := keyName(sc.C["kset"], c.Sim.Choose("rekey", keys, 1, 2))
					op := []Op{{K: "set", A: key}, {K: "get", A: k}, {K: "del", A: key}, {K: "flush"}, {K: "count"}, {K: "clean", N: 50}, {K: "set", A: k}, {K: "verify"}}[n-1]
					c.Res.Faults["reentrant-validator"]++
					do(op, 1000)
				}
			}
			if vm&valPanic != 0 && c.Sim.Choose("vpanic", 2, 1, 4) == 1 {
				c.Res.Faults["validator-panic"]++
				panic(injected{"validator " + key})
			}
			ok := c.Sim.Choose("reject", 2, 1, 3) == 0
			vc.res = 1
			if !ok {
				vc.res = 0
				c.Res.Faults["validator-reject"]++
			}
			return ok
		}
	}
	c.Sim.Quiet(func() {
		cache, setTTL = newCache(sc.Ver, int(sc.C["max"]), time.Duration(sc.C["expire"]), val)
	})
	ok := c.run(do)
	c.issues([]string{"C06", "C01"})
	if !ok {
		return
	}
	for _, r := range c.Recs {
		if r.Panic != "" && !strings.HasPrefix(r.Panic, "injected panic") {
			c.Fail([]string{"C06", "C01"}, "crash", "panic in "+r.Op.K, "operation failed: %s\n%s\nhistory:\n%s", r, r.Panic, c.history())
			return
		}
	}
	if max := int(sc.C["max"]); max > 0 && maxSeen > max {
		c.Fail([]string{"C02"}, "bound", "count over maximum", "%d entries in a cache of at most %d\n%s", maxSeen, max, c.history())
	}
	m := &cmodel{max: int(sc.C["max"]), expire: sc.C["expire"], ver: sc.Ver}
	items := m.build(c.Recs, val != nil)
	init := &cstate{}
	cprops := cacheProps
	if vm&(valPanic|valReenter) != 0 {
		cprops = append([]string{"C06"}, cacheProps...)
	}
	if c.Prop == "C07" {
		return
	}
	if sc.C["lenient"] != 0 {
		return
	}
	if len(sc.Tasks) == 0 && vm&valReenter == 0 {
		i, sts, incon := inOrder(items, init, cstateKey)
		if m.incon || incon {
			c.Res.Incon = true
		} else if i >= 0 {
			c.Fail(cprops, "history", "sequential "+strings.Fields(items[i].desc)[0], "impossible step: %s\nmodel before it: %v\n%s", items[i].desc, sts, c.history())
		}
		c.probe("sequential-history")
		return
	}
	lok, incon, best := linearize(items, init, cstateKey, 20000)
	c.Res.Incon = incon || m.incon
	if !lok && !m.incon {
		var b strings.Builder
		for _, i := range best {
			b.WriteString("    " + items[i].desc + "\n")
		}
		c.Fail(cprops, "history", "not linearizable", "no one-at-a-time order explains this history\n%s  longest possible order:\n%s", c.history(), b.String())
	}
	c.probe("linearizability-check")
}

func retention(c *Ctx, cache cacheAPI) {
	var n int
	var w *walker
	c.Sim.Quiet(func() {
		n = cache.Count()
		w = reach(cache)
	})
	c.probe("retention-check")
	if len(w.vals) > n {
		var l []string
		for v := range w.vals {
			l = append(l, v.S)
		}
		sort.Strings(l)
		c.Fail([]string{"C07"}, "retention", "values", "%d entries, but %d values are still reachable: %v\n%s", n, len(w.vals), l, c.history())
	}
	if (n == 0 && w.nkeys > 0) || w.nkeys > 4*n+6 {
		c.Fail([]string{"C07"}, "retention", "keys", "%d entries, but %d key references are still reachable: %v\n%s", n, w.nkeys, w.keyList(), c.history())
	}
}

// ---------------------------------------------------------------- generators

func pick(r *vsim.RNG, l ...string) string { return l[r.Intn(len(l))] }

type weighted struct {
	w int
	k string
}

func draw(r *vsim.RNG, l []weighted) string {
	t := 0
	for _, x := range l {
		t += x.w
	}
	n := r.Intn(t)
	for _, x := range l {
		if n < x.w {
			return x.k
		}
		n -= x.w
	}
	panic("draw")
}

type cacheGen struct {
	r    *vsim.RNG
	sc   *Scenario
	keys int
	unit int64
	seq  bool
	w    []weighted
}

func (g *cacheGen) dur() int64 {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return g.unit
	case 1:
		return g.unit + 1
	case 2:
		return g.unit - 1
	case 3:
		return g.unit/2 + 1
	case 4:
		return g.unit * 2
	default:
		return 1 + int64(r.Intn(int(g.unit)))
	}
}

func (g *cacheGen) key(i int) string { return keyName(g.sc.C["kset"], i) }

func (g *cacheGen) op() Op {
	r := g.r
	k := g.key(r.Intn(g.keys))
	switch o := draw(r, g.w); o {
	case "set":
		op := Op{K: o, A: k}
		if r.P(1, 4) {
			op.N = []int64{setSame, setSame, setList, setNil}[r.Intn(4)]
		}
		return op
	case "get", "del":
		return Op{K: o, A: k}
	case "ttl":
		d := g.dur()
		switch r.Intn(8) {
		case 0:
			d = 0
		case 1:
			d *= 10
		case 2:
			if g.seq {
				d = -1
			}
		case 3:
			if r.P(1, 4) {
				// for ever, for a human
				d = []int64{1 << 62, 7e18, 1 << 53}[r.Intn(3)]
			}
		}
		return Op{K: "ttl", A: k, N: d}
	case "clean":
		return Op{K: "clean", N: []int64{0, 0, 5, 10, 20, 25, 33, 50, 75, 99, 100, int64(r.Intn(101))}[r.Intn(12)]}
	case "adv":
		return Op{K: "adv", N: g.dur()}
	case "wall":
		d := g.unit * int64(1+r.Intn(100))
		if r.P(1, 2) {
			d = -d
		}
		return Op{K: "wall", N: d}
	default:
		return Op{K: o}
	}
}

func genCache(seq bool) func(r *vsim.RNG, prop string, thorough bool) *Scenario {
	return func(r *vsim.RNG, prop string, thorough bool) *Scenario {
		sc := &Scenario{Ver: 2, C: map[string]int64{}}
		if r.P(2, 5) {
			sc.Ver = 1
		}
		g := &cacheGen{r: r, sc: sc, seq: seq, unit: []int64{1000, 1000000, 60000000000, 86400000000000}[r.Intn(4)]}
		g.keys = 1 + r.Intn(3)
		if seq || r.P(1, 4) {
			g.keys = 2 + r.Intn(12)
		}
		if r.P(1, 8) {
			sc.C["log"] = 1
		}
		if prop != "C07" && r.P(1, 8) {
			sc.C["kset"] = int64(1 + r.Intn(2))
		}
		feat := func(p string, num, den int) bool { return prop == p || r.P(num, den) }
		max := 0
		if prop == "C02" || (prop == "C03" && r.P(3, 4)) || r.P(2, 5) {
			max = []int{1, 2, 3, 3, 4, 5, 9, 10, 11, 12, 20, 21}[r.Intn(12)]
			if prop == "C02" && r.P(1, 8) {
				max = 0
			}
			if max >= 9 || seq {
				g.keys = max/2 + 2 + r.Intn(max+2)
			} else if r.P(3, 4) {
				g.keys = max + 1 + r.Intn(2)
			}
		}
		big := seq && r.P(1, 12)
		if big {
			// many entries: no limit, or a high one
			max = 0
			g.keys = 30 + r.Intn(300)
			if r.P(1, 2) {
				max = 25 + r.Intn(300)
			}
			if r.P(1, 30) {
				g.keys = 500 + r.Intn(1500)
				if max > 0 {
					max = 300 + r.Intn(1200)
				}
			}
		}
		sc.C["max"] = int64(max)
		sc.C["keys"] = int64(g.keys)
		g.w = []weighted{{10, "set"}, {10, "get"}, {4, "del"}, {3, "count"}, {2, "clean"}, {1, "flush"}, {1, "verify"}}
		timed := feat("C04", 2, 5)
		if timed {
			if r.P(2, 3) {
				sc.C["expire"] = g.unit
				if r.P(1, 4) {
					sc.C["expire"] = g.unit * 3
				}
			}
			g.w = append(g.w, weighted{6, "adv"}, weighted{2, "wall"})
			if sc.Ver == 2 {
				g.w = append(g.w, weighted{6, "ttl"})
			}
			if r.P(1, 2) {
				g.w = append(g.w, weighted{3, "clean"}, weighted{2, "verify"})
			}
		}
		if prop == "C03" {
			g.w = append(g.w, weighted{4, "clean"})
		}
		if feat("C05", 2, 5) {
			v := int64(valOn)
			if r.P(1, 2) {
				v |= valSlow
			}
			if timed && r.P(1, 3) {
				v |= valAdvance
				sc.C["vadv"] = g.dur()
			}
			if prop == "C06" || r.P(1, 6) {
				if r.P(1, 2) {
					v |= valReenter
				}
				if r.P(1, 3) {
					v |= valPanic
				}
			}
			sc.C["val"] = v
			g.w = append(g.w, weighted{3, "verify"})
		}
		if seq && prop == "C03" && r.P(1, 40) {
			// percentages of round and other quantities
			sc.C["max"], sc.C["expire"] = 0, 0
			for i := 2 + r.Intn(6); i > 0; i-- {
				n := []int{50, 75, 90, 100, 100, 150, 180, 200, r.Intn(220), r.Intn(220)}[r.Intn(10)]
				for k := 0; k < n; k++ {
					sc.Pre = append(sc.Pre, Op{K: "set", A: g.key(k)})
				}
				sc.Pre = append(sc.Pre, Op{K: "clean", N: int64(r.Intn(101))}, Op{K: "count"}, Op{K: "flush"})
			}
			return sc
		}
		if seq {
			n := 10 + r.Intn(60)
			if r.P(1, 6) {
				n = 80 + r.Intn(250)
			}
			if !big && r.P(1, 300) {
				// a long life
				n = 1000 + r.Intn(3000)
				sc.C["maxsteps"] = 50_000_000
			}
			if big {
				g.w = append(g.w, weighted{20, "set"}, weighted{5, "get"})
				// one after the other first, so that the cache fills up
				for i := r.Intn(g.keys); i > 0; i-- {
					sc.Pre = append(sc.Pre, Op{K: "set", A: g.key(i)})
				}
			}
			sc.C["val"] &^= valReenter
			if sc.C["val"]&valOn != 0 {
				sc.C["nowstep"] = int64(r.Intn(2))
			}
			for i := 0; i < n; i++ {
				sc.Pre = append(sc.Pre, g.op())
				if prop == "C07" && r.P(1, 6) {
					sc.Pre = append(sc.Pre, Op{K: "retain"})
				}
			}
			if prop == "C07" {
				sc.Pre = append(sc.Pre, g.empty()...)
			}
			sc.Pre = append(sc.Pre, Op{K: "count"})
			return sc
		}
		// ctimes differ from call to call, so that they identify the entry
		sc.C["nowstep"] = 1
		// prefill
		n := r.Intn(3)
		if max > 0 {
			n = r.Intn(max + 1)
			if r.P(2, 3) && max > 1 {
				n = max - 1 - r.Intn(2)
			}
		}
		if r.P(1, 3) || prop == "C03" {
			n += r.Intn(4)
		}
		if max == 0 && r.P(1, 40) {
			// others hold many entries
			for i := 20 + r.Intn(60); i > 0; i-- {
				sc.Pre = append(sc.Pre, Op{K: "set", A: g.key(1000 + i)})
			}
		}
		for i := 0; i < n; i++ {
			if r.P(4, 5) {
				sc.Pre = append(sc.Pre, Op{K: "set", A: g.key(i % g.keys)})
			} else {
				sc.Pre = append(sc.Pre, g.op())
			}
		}
		nt := 2 + r.Intn(2)
		if r.P(1, 8) {
			nt = 4
		}
		if thorough && r.P(1, 4) {
			nt = 2 + r.Intn(4)
		}
		crowd := r.P(1, 60)
		if crowd {
			nt = 5 + r.Intn(5)
		}
		for t := 0; t < nt; t++ {
			m := 1 + r.Intn(4)
			if crowd {
				m = 1
			}
			if thorough && r.P(1, 4) {
				m += r.Intn(4)
			}
			if prop == "C06" && r.P(1, 3) {
				m += r.Intn(6)
			}
			var l []Op
			for i := 0; i < m; i++ {
				l = append(l, g.op())
			}
			sc.Tasks = append(sc.Tasks, l)
		}
		sc.Post = append(sc.Post, Op{K: "count"})
		switch {
		case prop == "C07":
			sc.Post = append(sc.Post, Op{K: "retain"})
			sc.Post = append(sc.Post, g.empty()...)
		case prop == "C03" || r.P(1, 3):
			// what the order of use is now shows in what a cleaning leaves
			sc.Post = append(sc.Post, Op{K: "clean", N: []int64{20, 34, 50, 50, 67, 80}[r.Intn(6)]}, Op{K: "count"})
			fallthrough
		default:
			for i := 0; i < g.keys; i++ {
				sc.Post = append(sc.Post, Op{K: "get", A: g.key(i)})
			}
			sc.Post = append(sc.Post, Op{K: "count"})
		}
		return sc
	}
}

// empty empties the cache in one of several ways, and looks at what is left.
func (g *cacheGen) empty() []Op {
	var l []Op
	switch g.r.Intn(4) {
	case 0:
		l = append(l, Op{K: "flush"})
	case 1:
		l = append(l, Op{K: "clean", N: 100})
	case 2:
		for i := 0; i < g.keys; i++ {
			l = append(l, Op{K: "del", A: g.key(i)})
		}
	default:
		if g.sc.C["expire"] != 0 {
			l = append(l, Op{K: "adv", N: g.sc.C["expire"] + 1}, Op{K: "clean"})
		} else {
			l = append(l, Op{K: "flush"})
		}
	}
	return append(l, Op{K: "count"}, Op{K: "retain"})
}

func init() {
	register(&World{"cache", genCache(false), runCache})
	register(&World{"cacheseq", genCache(true), runCache})
	real := "xcache.go of both modules, complete (instrumented)"
	stub := "clock, goroutine scheduler, sync primitives, map order: simulator; validator: harness"
	for _, p := range []propDef{
		{ID: "C01", Worlds: []string{"cache", "cache", "cacheseq"}},
		{ID: "C02", Worlds: []string{"cache", "cacheseq"}},
		{ID: "C03", Worlds: []string{"cache", "cacheseq"}},
		{ID: "C04", Worlds: []string{"cache", "cacheseq"}},
		{ID: "C05", Worlds: []string{"cache", "cache", "cacheseq"}},
		{ID: "C06", Worlds: []string{"cache"}},
		{ID: "C07", Worlds: []string{"cache", "cacheseq"}},
	} {
		p := p
		p.Real, p.Stub = real, stub
		p.Quick, p.Deep = 240000, 4000000
		props[p.ID] = &p
	}
}
