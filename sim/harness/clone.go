package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"vsim"
)

// ---------------------------------------------------------------- both versions behind one face

type getset interface {
	Set(key string, data interface{})
	Get(key string) (interface{}, bool)
	Del(key string)
}

func isColl(v any) bool {
	switch v.(type) {
	case x1.XDatasetCollectionDef, x2.XDatasetCollectionDef:
		return true
	}
	return false
}

func isDS(v any) bool {
	switch v.(type) {
	case x1.XDatasetDef, x2.XDatasetDef:
		return true
	}
	return false
}

func cloneAny(v any) any {
	switch x := v.(type) {
	case x1.XDatasetDef:
		return x.Clone()
	case x2.XDatasetDef:
		return x.Clone()
	case x1.XDatasetCollectionDef:
		return x.Clone()
	case x2.XDatasetCollectionDef:
		return x.Clone()
	}
	panic("cloneAny")
}

func collLen(v any) int { return v.(interface{ Count() int }).Count() }

func collAt(v any, i int) any {
	switch x := v.(type) {
	case x1.XDatasetCollectionDef:
		d, _ := x.Get(i)
		return d
	case x2.XDatasetCollectionDef:
		d, _ := x.Get(i)
		return d
	}
	panic("collAt")
}

func collAdd(v any, d any, front bool) {
	switch x := v.(type) {
	case x1.XDatasetCollectionDef:
		if front {
			x.Unshift(d.(x1.XDatasetDef))
		} else {
			x.Push(d.(x1.XDatasetDef))
		}
	case x2.XDatasetCollectionDef:
		if front {
			x.Unshift(d.(x2.XDatasetDef))
		} else {
			x.Push(d.(x2.XDatasetDef))
		}
	}
}

func collTake(v any, front bool) any {
	switch x := v.(type) {
	case x1.XDatasetCollectionDef:
		if front {
			return x.Shift()
		}
		return x.Pop()
	case x2.XDatasetCollectionDef:
		if front {
			return x.Shift()
		}
		return x.Pop()
	}
	panic("collTake")
}

var cloneKeys = []string{"_id", "c0", "c1", "d0", "d1", "d2", "f0", "f1", "f12", "f19", "f2", "f3"}

func idOf(d any) string {
	v, _ := d.(getset).Get("_id")
	s, ok := v.(string)
	if !ok {
		return "~" // the one without a name
	}
	return s
}

// contents is the own level of an object, as a model state: dsstate or costate list.
func contents(v any) any {
	if isColl(v) {
		var l []string
		for i, n := 0, collLen(v); i < n; i++ {
			l = append(l, idOf(collAt(v, i)))
		}
		return strings.Join(l, ",")
	}
	var s dsstate
	for _, k := range cloneKeys {
		x, ok := v.(getset).Get(k)
		if !ok {
			continue
		}
		switch {
		case isColl(x):
			s = append(s, kv{k, "#"})
		case isDS(x):
			s = append(s, kv{k, "@" + idOf(x)})
		default:
			s = append(s, kv{k, canon(x, nil)})
		}
	}
	return s
}

func stKey(a any) string {
	if s, ok := a.(string); ok {
		return s
	}
	return dsstateKey(a)
}

// cnode is one object of a structure with its model.
type cnode struct {
	v     any
	id    string
	coll  bool
	plain bool
	st    any
}

// walkObj lists all objects of a structure.
func walkObj(v any, id string, depth int, out *[]*cnode) {
	n := &cnode{v: v, id: id, coll: isColl(v), st: contents(v)}
	switch v.(type) {
	case *x2.XDatasetTS, *x2.XDatasetCollectionTS:
	default:
		n.plain = true
	}
	if !n.coll {
		n.id = idOf(v)
	}
	*out = append(*out, n)
	if depth > 200 {
		return
	}
	if n.coll {
		for i, c := 0, collLen(v); i < c; i++ {
			walkObj(collAt(v, i), "", depth+1, out)
		}
		return
	}
	for _, k := range cloneKeys {
		x, ok := v.(getset).Get(k)
		if !ok {
			continue
		}
		if isColl(x) || isDS(x) {
			walkObj(x, n.id+">"+k, depth+1, out)
		}
	}
}

// ---------------------------------------------------------------- C13

func addIDs(n *node, path string, bare *node) {
	if n.K == "d" && n != bare {
		n.F = append([]field{{"_id", &node{V: "s:" + path}}}, n.F...)
		for _, f := range n.F {
			addIDs(f.V, path+">"+f.N, bare)
		}
	}
	for i, e := range n.E {
		addIDs(e, path+">"+strconv.Itoa(i), bare)
	}
}

// datasets lists the datasets of a structure.
func (n *node) datasets(l []*node) []*node {
	if n.K == "d" {
		l = append(l, n)
	}
	for _, f := range n.F {
		l = f.V.datasets(l)
	}
	for _, e := range n.E {
		l = e.datasets(l)
	}
	return l
}

type chandle struct {
	nodes []*cnode
	task  int
}

func runClone(c *Ctx) {
	sc := c.Sc
	props := []string{"C13"}
	spec := parseNode(sc.S["data"])
	fresh := map[int64]any{} // datasets to add, by number
	var root any
	build := func(n *node) any {
		if sc.Ver == 1 {
			return n.build1("R", names{})
		}
		return n.build2("R", names{})
	}
	mk := func(n int64) any {
		if sc.Ver == 2 && n%2 == 0 {
			d := x2.XDataset{"_id": fmt.Sprintf("N%d", n), "f0": fmt.Sprintf("N%d.f0", n)}
			return x2.NewXDatasetTS(&d)
		}
		if sc.Ver == 2 {
			return &x2.XDataset{"_id": fmt.Sprintf("N%d", n), "f0": fmt.Sprintf("N%d.f0", n)}
		}
		return &x1.XDataset{"_id": fmt.Sprintf("N%d", n), "f0": fmt.Sprintf("N%d.f0", n)}
	}
	orig := map[string]*cnode{}
	var order []string
	hist := map[string][]item{}
	c.Sim.Quiet(func() {
		root = build(spec)
		var l []*cnode
		walkObj(root, "R", 0, &l)
		for _, n := range l {
			orig[n.id] = n
			order = append(order, n.id)
		}
		note := func(ops []Op) {
			for _, o := range ops {
				if (o.K == "add" || o.K == "cadd") && fresh[o.N] == nil {
					fresh[o.N] = mk(o.N)
					id := fmt.Sprintf("N%d", o.N)
					if o.K == "add" {
						orig[id] = &cnode{v: fresh[o.N], id: id, st: contents(fresh[o.N])}
					}
				}
			}
		}
		note(sc.Pre)
		for _, l := range sc.Tasks {
			note(l)
		}
		note(sc.Post)
	})
	var handles []*chandle
	mine := func(t int) []*chandle {
		var l []*chandle
		for _, h := range handles {
			if h.task == t {
				l = append(l, h)
			}
		}
		return l
	}
	add := func(id string, r *Rec, desc string, apply func(a any) []any) {
		hist[id] = append(hist[id], item{inv: r.Inv, ret: r.Ret, desc: desc, apply: apply})
	}
	// write performs a modification and returns its effect on the model of the object
	write := func(n *cnode, op Op, r *Rec) func(a any) any {
		key := "f" + fmt.Sprint(op.M&3)
		switch op.K {
		case "set", "cset":
			n.v.(getset).Set(key, value(op.B))
			return func(a any) any { return a.(dsstate).with(key, canon(value(op.B), nil)) }
		case "del", "cdel":
			if op.M&4 != 0 {
				key = pick2(op.M, "d0", "c0", "d1", "d2")
			}
			n.v.(getset).Del(key)
			return func(a any) any { return a.(dsstate).without(key) }
		case "add", "cadd":
			id := fmt.Sprintf("N%d", op.N)
			if n.coll {
				collAdd(n.v, fresh[op.N], op.M&1 != 0)
				return func(a any) any {
					s := a.(string)
					switch {
					case s == "":
						return id
					case op.M&1 != 0:
						return id + "," + s
					}
					return s + "," + id
				}
			}
			n.v.(getset).Set("d2", fresh[op.N])
			return func(a any) any { return a.(dsstate).with("d2", "@"+id) }
		case "take", "ctake":
			if collLen(n.v) == 0 {
				return nil
			}
			front := op.M&1 != 0
			var got string
			func() {
				defer func() {
					if e := recover(); e != nil {
						if c.Sim.IsDead() || !strings.Contains(fmt.Sprint(e), "out of range") {
							panic(e)
						}
						got = "EMPTY"
					}
				}()
				d := collTake(n.v, front)
				c.Sim.Quiet(func() { got = idOf(d) })
			}()
			return func(a any) any {
				s := a.(string)
				if s == "" || got == "EMPTY" {
					if s == "" && got == "EMPTY" {
						return s
					}
					return nil
				}
				l := strings.Split(s, ",")
				i := len(l) - 1
				if front {
					i = 0
				}
				if l[i] != got {
					return nil
				}
				return strings.Join(append(append([]string{}, l[:i]...), l[i+1:]...), ",")
			}
		}
		panic(op.K)
	}
	fits := func(n *cnode, op Op) bool {
		switch op.K {
		case "set", "cset", "del", "cdel":
			return !n.coll
		case "take", "ctake":
			return n.coll
		}
		return true
	}
	do := func(op Op, idx int) {
		t := vsim.CurrentTask()
		owner := t
		if op.N < 0 {
			return
		}
		switch op.K {
		case "set", "del", "add", "take":
			n := orig[order[(int(op.A[0]-'A')+int(op.M>>8))%len(order)]]
			if !fits(n, op) || (n.plain && sc.C["plainw"] == 0) {
				return
			}
			var eff func(a any) any
			r := c.call(op, idx, func(r *Rec) []any {
				eff = write(n, op, r)
				return []any{n.id}
			})
			if r.Done && eff != nil {
				add(n.id, r, r.Op.String(), func(a any) []any {
					if x := eff(a); x != nil {
						return []any{x}
					}
					return nil
				})
			}
		case "clone":
			n := orig[order[(int(op.A[0]-'A')+int(op.M>>8))%len(order)]]
			var cp any
			r := c.call(op, idx, func(r *Rec) []any {
				cp = cloneAny(n.v)
				return []any{n.id}
			})
			if !r.Done || r.Panic != "" {
				return
			}
			if op.M&1 != 0 {
				owner = 2 // made for another thread
			}
			h := &chandle{task: owner}
			c.Sim.Quiet(func() { walkObj(cp, n.id, 0, &h.nodes) })
			handles = append(handles, h)
			for _, k := range h.nodes {
				want := stKey(k.st)
				if orig[k.id] == nil {
					c.Fail(props, "clone", "unknown object in the copy", "the copy has an object that the original never had: %s %s\n%s", k.id, want, c.history())
					continue
				}
				add(k.id, r, "copied as "+want, func(a any) []any {
					if stKey(a) == want {
						return []any{a}
					}
					return nil
				})
			}
			c.probe("clone-compared")
		case "cset", "cdel", "cadd", "ctake", "cclone":
			l := mine(owner)
			if len(l) == 0 {
				return
			}
			h := l[int(op.A[0]-'A')%len(l)]
			n := h.nodes[(int(op.A[1]-'A')+int(op.M>>8))%len(h.nodes)]
			if op.K == "cclone" {
				n = h.nodes[0]
				var cp any
				r := c.call(op, idx, func(r *Rec) []any { cp = cloneAny(n.v); return nil })
				if !r.Done || r.Panic != "" {
					return
				}
				h2 := &chandle{task: owner}
				c.Sim.Quiet(func() {
					walkObj(cp, n.id, 0, &h2.nodes)
					var now []*cnode
					walkObj(n.v, n.id, 0, &now)
					if a, b := shape(now), shape(h2.nodes); a != b {
						c.Fail(props, "clone", "copy of a copy differs", "source: %s\ncopy: %s\n%s", a, b, c.history())
					}
				})
				handles = append(handles, h2)
				return
			}
			if !fits(n, op) {
				return
			}
			var eff func(a any) any
			r := c.call(op, idx, func(r *Rec) []any {
				eff = write(n, op, r)
				return []any{n.id}
			})
			if r.Done && r.Panic == "" && eff != nil {
				if n.st = eff(n.st); n.st == nil {
					c.Fail(props, "clone", "copy changed by others", "removing from the copy gave an unexpected element\n%s", c.history())
					n.st = contents(n.v)
				}
			}
		case "read":
			n := orig[order[(int(op.A[0]-'A')+int(op.M>>8))%len(order)]]
			c.call(op, idx, func(r *Rec) []any {
				if n.coll {
					return []any{collLen(n.v)}
				}
				return two(n.v.(getset).Get("f" + fmt.Sprint(op.M&3)))
			})
		default:
			panic(op.K)
		}
	}
	ok := c.run(do)
	c.issues(props)
	if !ok || c.panics(props) || len(c.Res.Viols) > 0 {
		return
	}
	end := int64(1) << 60
	c.Sim.Quiet(func() {
		for _, h := range handles {
			for _, n := range h.nodes {
				if got, want := stKey(contents(n.v)), stKey(n.st); got != want {
					c.Fail(props, "clone", "copy changed by others", "object %s of a copy holds %s, its owner left it as %s\n%s", n.id, got, want, c.history())
					return
				}
			}
		}
		c.probe("clone-unchanged-check")
		for id, n := range orig {
			want := stKey(contents(n.v))
			hist[id] = append(hist[id], item{inv: end, ret: end + 1, desc: "at the end " + want, apply: func(a any) []any {
				if stKey(a) == want {
					return []any{a}
				}
				return nil
			}})
		}
	})
	for _, id := range sortedKeys(hist) {
		n := orig[id]
		ok, incon, best := linearize(hist[id], n.st, stKey, 20000)
		c.Res.Incon = c.Res.Incon || incon
		if !ok {
			var b strings.Builder
			for _, i := range best {
				b.WriteString("    " + hist[id][i].desc + "\n")
			}
			c.Fail(props, "clone", "copy is no instant of the original", "no order of the events of object %s (initially %s) explains its copies and its end\n%s  longest possible order:\n%s", id, stKey(n.st), c.history(), b.String())
			return
		}
	}
}

func pick2(m int64, l ...string) string { return l[int(m>>3)%len(l)] }

func shape(l []*cnode) string {
	var b strings.Builder
	for _, n := range l {
		b.WriteString(n.id + "{" + stKey(n.st) + "} ")
	}
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func genClone(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}, S: map[string]string{}}
	if r.P(1, 5) {
		sc.Ver = 1
	}
	ts := []int{0, 50, 80, 100}[r.Intn(4)]
	mode := r.Intn(4) // 0,1: live original; 2: split; 3: sequential
	if sc.Ver == 1 && mode < 2 {
		mode = 2
	}
	if mode < 2 && ts == 0 {
		ts = 80
	}
	n := genNode(r, 1+r.Intn(2), ts, "v")
	if r.P(1, 4) {
		n = genColl(r, 1, ts, "v")
	} else if r.P(1, 12) {
		n = genNode(r, 0, ts, "v").deepen(r, ts, "v", r.P(1, 6))
	}
	var bare *node
	if l := n.datasets(nil); len(l) > 0 && r.P(1, 4) {
		// one dataset starts empty
		bare = l[r.Intn(len(l))]
		bare.F = nil
	}
	addIDs(n, "R", bare)
	sc.S["data"] = n.String()
	nv, nn := 0, int64(0)
	at := func() string { return string(rune('A' + r.Intn(12))) }
	op := func(orig, copies bool) Op {
		nv++
		ws := []weighted{}
		if orig {
			ws = append(ws, weighted{8, "set"}, weighted{3, "del"}, weighted{4, "add"}, weighted{4, "take"}, weighted{2, "read"})
		}
		if copies {
			ws = append(ws, weighted{6, "cset"}, weighted{2, "cdel"}, weighted{3, "cadd"}, weighted{3, "ctake"}, weighted{1, "cclone"})
		}
		if orig && copies || mode < 2 {
			ws = append(ws, weighted{7, "clone"})
		}
		o := Op{K: draw(r, ws), A: at() + at(), M: int64(r.Intn(64))}
		if r.P(1, 3) {
			o.M |= int64(r.Intn(80)) << 8 // further down
		}
		switch o.K {
		case "set", "cset":
			o.B = scalarCode(r, fmt.Sprintf("w%d", nv), nv)
		case "add", "cadd":
			nn++
			o.N = nn
		case "clone":
			o.M = 0
			if r.P(2, 3) {
				o.A = "AA"
			}
		}
		return o
	}
	list := func(n int, orig, copies bool) []Op {
		var l []Op
		for i := 0; i < n; i++ {
			l = append(l, op(orig, copies))
		}
		return l
	}
	switch mode {
	case 0, 1:
		for t := 2 + r.Intn(2); t > 0; t-- {
			if r.P(1, 3) {
				sc.Tasks = append(sc.Tasks, list(1+r.Intn(6), true, false))
			} else {
				sc.Tasks = append(sc.Tasks, list(1+r.Intn(6), true, true))
			}
		}
	case 2:
		sc.C["plainw"] = 1
		sc.Pre = append(sc.Pre, Op{K: "clone", A: "AA", M: 1})
		sc.Tasks = append(sc.Tasks, list(1+r.Intn(6), true, false), list(1+r.Intn(6), false, true))
	case 3:
		sc.C["plainw"] = 1
		sc.Pre = list(3+r.Intn(25), true, true)
	}
	return sc
}

// ---------------------------------------------------------------- C14

func runReaders(c *Ctx) {
	sc := c.Sc
	props := []string{"C14"}
	specs := []*node{parseNode(sc.S["d0"]), parseNode(sc.S["d1"]), parseNode(sc.S["d2"])}
	type world struct {
		ds []any
		co any
		nm names
	}
	mk := func() *world {
		w := &world{nm: names{}}
		if sc.Ver == 1 {
			w.co = &x1.XDatasetCollection{}
		} else {
			w.co = &x2.XDatasetCollection{}
		}
		for i, s := range specs {
			var d any
			if sc.Ver == 1 {
				d = s.build1(fmt.Sprintf("d%d", i), w.nm)
			} else {
				d = s.build2(fmt.Sprintf("d%d", i), w.nm)
			}
			w.ds = append(w.ds, d)
			collAdd(w.co, d, false)
		}
		return w
	}
	dump := dump2
	if sc.Ver == 1 {
		dump = dump1
	}
	var w, ref *world
	c.Sim.Quiet(func() { w, ref = mk(), mk() })
	read := func(w *world, op Op) []any {
		if op.B == "co" {
			switch {
			case op.K == "clone":
				return []any{cloneAny(w.co)}
			case sc.Ver == 1:
				return readCO1(w.co.(x1.XDatasetCollectionDef), op.K, op.A, int(op.N))
			}
			return readCO2(w.co.(x2.XDatasetCollectionDef), op.K, op.A, int(op.N))
		}
		d := w.ds[int(op.N)%len(w.ds)]
		switch {
		case op.K == "clone":
			return []any{cloneAny(d)}
		case sc.Ver == 1:
			return readDS1(d.(x1.XDatasetDef), op.K, op.A)
		}
		return readDS2(d.(x2.XDatasetDef), op.K, op.A)
	}
	do := func(op Op, idx int) {
		r := c.call(op, idx, func(r *Rec) []any { return read(w, op) })
		if !r.Done {
			return
		}
		c.Sim.Quiet(func() {
			var want []any
			bad := ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						bad = fmt.Sprint(e)
					}
				}()
				want = read(ref, op)
			}()
			if bad != "" || r.Panic != "" {
				if (bad != "") != (r.Panic != "") {
					c.Fail(props, "answer", "panics differ", "alone: %q\n%s", bad, r)
				}
				return
			}
			var a, b string
			if op.K == "clone" {
				a, b = dump(r.Out[0]), dump(want[0])
			} else {
				a, b = canons(r.Out, w.nm), canons(want, ref.nm)
			}
			c.probe("answer-compared")
			if a != b {
				c.Fail(props, "answer", "answer differs from the one alone: "+op.K, "%s\n got:   %s\n alone: %s\n%s", r, a, b, c.history())
			}
		})
	}
	ok := c.run(do)
	c.issues(props)
	if !ok {
		return
	}
	c.Sim.Quiet(func() {
		pristine := mk()
		if a, b := dump(w.co), dump(pristine.co); a != b {
			c.Fail(props, "written", "reading changed the contents", "before: %s\nafter:  %s\n%s", b, a, c.history())
		}
		c.probe("contents-unchanged-check")
	})
}

func genReaders(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 1 + r.Intn(2), C: map[string]int64{}, S: map[string]string{}}
	var sp []*node
	for i := 0; i < 3; i++ {
		n := genNode(r, 1+r.Intn(3), 0, fmt.Sprintf("D%d", i))
		if r.P(1, 12) {
			n = genNode(r, 0, 0, fmt.Sprintf("D%d", i)).deepen(r, 0, fmt.Sprintf("D%d", i), r.P(1, 12))
		}
		sp = append(sp, n)
		sc.S[fmt.Sprintf("d%d", i)] = n.String()
	}
	op := func() Op {
		if r.P(1, 3) {
			k := coReads[r.Intn(len(coReads))]
			if r.P(1, 10) {
				k = "clone"
			}
			return Op{K: k, B: "co", A: sp[r.Intn(3)].paths(r), N: int64(r.Intn(5) - 1)}
		}
		i := r.Intn(3)
		k := dsReads[r.Intn(len(dsReads))]
		if r.P(1, 10) {
			k = "clone"
		}
		return Op{K: k, N: int64(i), A: sp[i].paths(r)}
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(6); i > 0; i-- {
			l = append(l, op())
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	return sc
}

func init() {
	register(&World{"clone", genClone, runClone})
	register(&World{"readers", genReaders, runReaders})
	stub := "goroutine scheduler, sync primitives, map order: simulator"
	props["C13"] = &propDef{ID: "C13", Worlds: []string{"clone"}, Quick: 300000, Deep: 4000000, Real: "the datasets and collections of both modules, complete (instrumented); fmt as it is", Stub: stub}
	props["C14"] = &propDef{ID: "C14", Worlds: []string{"readers"}, Quick: 160000, Deep: 2500000, Real: "the plain datasets and collections of both modules, complete (instrumented); fmt as it is", Stub: stub}
}
