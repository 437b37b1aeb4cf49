package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	x2 "github.com/webability-go/xcore/v2"
	"vsim"
)

// ---------------------------------------------------------------- a dataset that panics

// bomb decides where user-supplied datasets panic.
type bomb struct {
	c        *Ctx
	on       bool
	num, den int
}

func (b *bomb) maybe(what string) {
	if b == nil || !b.on {
		return
	}
	if b.c.Sim.Choose("panic", 2, b.num, b.den) == 1 {
		b.c.Res.Faults["panic-in-dataset"]++
		panic(injected{what})
	}
}

// faulty is a user-supplied dataset whose methods panic when told.
type faulty struct {
	d *x2.XDataset
	b *bomb
}

func (f *faulty) String() string {
	f.b.maybe("String")
	return f.d.String()
}
func (f *faulty) GoString() string {
	f.b.maybe("GoString")
	return f.d.GoString()
}
func (f *faulty) Set(key string, data interface{}) {
	f.b.maybe("Set before")
	f.d.Set(key, data)
	f.b.maybe("Set after")
}
func (f *faulty) Del(key string) {
	f.b.maybe("Del before")
	f.d.Del(key)
	f.b.maybe("Del after")
}
func (f *faulty) Clone() x2.XDatasetDef {
	f.b.maybe("Clone")
	return &faulty{f.d.Clone().(*x2.XDataset), f.b}
}
func (f *faulty) Get(key string) (interface{}, bool) {
	f.b.maybe("Get")
	return f.d.Get(key)
}

func (f *faulty) GetDataset(key string) (x2.XDatasetDef, bool) {
	f.b.maybe("GetDataset")
	return f.d.GetDataset(key)
}
func (f *faulty) GetCollection(key string) (x2.XDatasetCollectionDef, bool) {
	f.b.maybe("GetCollection")
	return f.d.GetCollection(key)
}
func (f *faulty) GetString(key string) (string, bool) {
	f.b.maybe("GetString")
	return f.d.GetString(key)
}
func (f *faulty) GetBool(key string) (bool, bool) {
	f.b.maybe("GetBool")
	return f.d.GetBool(key)
}
func (f *faulty) GetInt(key string) (int, bool) {
	f.b.maybe("GetInt")
	return f.d.GetInt(key)
}
func (f *faulty) GetFloat(key string) (float64, bool) {
	f.b.maybe("GetFloat")
	return f.d.GetFloat(key)
}
func (f *faulty) GetTime(key string) (time.Time, bool) {
	f.b.maybe("GetTime")
	return f.d.GetTime(key)
}
func (f *faulty) GetStringCollection(key string) ([]string, bool) {
	f.b.maybe("GetStringCollection")
	return f.d.GetStringCollection(key)
}
func (f *faulty) GetBoolCollection(key string) ([]bool, bool) {
	f.b.maybe("GetBoolCollection")
	return f.d.GetBoolCollection(key)
}
func (f *faulty) GetIntCollection(key string) ([]int, bool) {
	f.b.maybe("GetIntCollection")
	return f.d.GetIntCollection(key)
}
func (f *faulty) GetFloatCollection(key string) ([]float64, bool) {
	f.b.maybe("GetFloatCollection")
	return f.d.GetFloatCollection(key)
}
func (f *faulty) GetTimeCollection(key string) ([]time.Time, bool) {
	f.b.maybe("GetTimeCollection")
	return f.d.GetTimeCollection(key)
}

var _ x2.XDatasetDef = (*faulty)(nil)

// ---------------------------------------------------------------- C10, C12: one shared thread-safe dataset

type kv struct{ k, v string }
type dsstate []kv // sorted

func (s dsstate) with(k, v string) dsstate {
	n := make(dsstate, 0, len(s)+1)
	done := false
	for _, e := range s {
		if e.k == k {
			n = append(n, kv{k, v})
			done = true
			continue
		}
		if !done && e.k > k {
			n = append(n, kv{k, v})
			done = true
		}
		n = append(n, e)
	}
	if !done {
		n = append(n, kv{k, v})
	}
	return n
}

func (s dsstate) without(k string) dsstate {
	n := make(dsstate, 0, len(s))
	for _, e := range s {
		if e.k != k {
			n = append(n, e)
		}
	}
	return n
}

func dsstateKey(a any) string {
	var b strings.Builder
	for _, e := range a.(dsstate) {
		b.WriteString(e.k)
		b.WriteByte('=')
		b.WriteString(e.v)
		b.WriteByte(',')
	}
	return b.String()
}

func runDSTS(c *Ctx) {
	sc := c.Sc
	props := []string{"C10"}
	if sc.C["faulty"] != 0 {
		props = []string{"C12"}
	}
	nm := names{}
	objs := map[string]any{}
	var shared *x2.XDatasetTS
	bm := &bomb{c: c, num: 1, den: int(sc.C["den"])}
	val := func(code string) any {
		if o, ok := objs[code]; ok {
			return o
		}
		return value(code)
	}
	c.Sim.Quiet(func() {
		for _, n := range []string{"D:0", "D:1", "C:0"} {
			objs[n] = parseNode(sc.S[n]).build2(n, nm)
		}
		d := x2.XDataset{}
		if sc.C["faulty"] != 0 {
			shared = x2.NewXDatasetTS(&faulty{&d, bm})
		} else {
			shared = x2.NewXDatasetTS(&d)
		}
		if sc.C["wrap"] != 0 {
			shared = x2.NewXDatasetTS(shared)
		}
		for _, o := range sc.Pre {
			if o.K == "init" {
				d[o.A] = val(o.B)
			}
		}
	})
	var st dsstate
	for _, o := range sc.Pre {
		if o.K == "init" {
			st = st.with(o.A, o.B)
		}
	}
	bm.on = true
	do := func(op Op, idx int) {
		if op.K == "init" {
			return
		}
		c.call(op, idx, func(r *Rec) []any {
			switch op.K {
			case "set":
				shared.Set(op.A, val(op.B))
			case "del":
				shared.Del(op.A)
			case "clone":
				x := shared.Clone()
				r.Extra = x
			default:
				return readDS2(shared, op.K, op.A)
			}
			return nil
		})
	}
	ok := c.run(do)
	bm.on = false
	c.issues(props)
	if !ok || c.panics(props) {
		return
	}
	var items []item
	c.Sim.Quiet(func() {
		for _, r := range c.Recs {
			r := r
			op := r.Op
			pan := r.Panic != ""
			it := item{inv: r.Inv, ret: r.Ret, desc: op.String()}
			switch op.K {
			case "set":
				it.apply = func(a any) []any {
					n := a.(dsstate).with(op.A, op.B)
					if pan {
						return []any{a, n}
					}
					return []any{n}
				}
			case "del":
				it.apply = func(a any) []any {
					n := a.(dsstate).without(op.A)
					if pan {
						return []any{a, n}
					}
					return []any{n}
				}
			default:
				var got string
				memo := map[string]bool{}
				if !pan {
					if op.K == "clone" {
						got = r.Extra.(x2.XDatasetDef).GoString()
					} else {
						got = canons(r.Out, nm)
					}
				}
				it.apply = func(a any) []any {
					if pan {
						return []any{a}
					}
					s := a.(dsstate)
					k := dsstateKey(s)
					okk, seen := memo[k]
					if !seen {
						p := x2.XDataset{}
						for _, e := range s {
							p[e.k] = val(e.v)
						}
						var want string
						if op.K == "clone" {
							want = p.Clone().GoString()
						} else {
							want = canons(readDS2(&p, op.K, op.A), nm)
						}
						okk = want == got
						memo[k] = okk
					}
					if okk {
						return []any{a}
					}
					return nil
				}
			}
			items = append(items, it)
		}
		c.lin(props, items, st, dsstateKey)
	})
}

func genDSTS(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}, S: map[string]string{}}
	if prop == "C12" {
		sc.C["faulty"] = 1
		sc.C["den"] = int64(2 + r.Intn(10))
	}
	if r.P(1, 10) {
		sc.C["wrap"] = 1
	}
	d0 := genNode(r, 1, 50, "D0")
	sc.S["D:0"] = d0.String()
	sc.S["D:1"] = genNode(r, 0, 50, "D1").String()
	sc.S["C:0"] = genColl(r, 1, 50, "C0").String()
	keys := 1 + r.Intn(3)
	if r.P(1, 40) {
		keys = 8 + r.Intn(30)
		if r.P(1, 10) {
			keys = 60 + r.Intn(200)
		}
	}
	nv := 0
	val := func() string {
		nv++
		if r.P(1, 6) {
			return pick(r, "D:0", "D:1", "C:0")
		}
		return scalarCode(r, fmt.Sprintf("v%d", nv), nv)
	}
	key := func() string { return fmt.Sprintf("k%d", r.Intn(keys)) }
	path := func() string {
		switch r.Intn(6) {
		case 0:
			return key() + ">" + pick(r, "f0", "f1", "d0>f0", "c0>0>f1")
		case 1:
			return key() + ">" + pick(r, "0", "0>f0", "1>f1", "x")
		case 2:
			return "zz"
		}
		return key()
	}
	op := func() Op {
		switch draw(r, []weighted{{8, "set"}, {5, "del"}, {3, "clone"}, {14, "read"}}) {
		case "set":
			return Op{K: "set", A: key(), B: val()}
		case "del":
			return Op{K: "del", A: key()}
		case "clone":
			return Op{K: "clone"}
		}
		if r.P(1, 4) {
			return Op{K: "get", A: path()}
		}
		k := dsReads[r.Intn(len(dsReads))]
		if k == "str" || k == "gostr" {
			return Op{K: k}
		}
		return Op{K: k, A: path()}
	}
	for i := 0; i < keys; i++ {
		if r.P(2, 3) {
			sc.Pre = append(sc.Pre, Op{K: "init", A: fmt.Sprintf("k%d", i), B: val()})
		}
	}
	if r.P(1, 8) {
		for i := seqLen(r); i > 0; i-- {
			sc.Pre = append(sc.Pre, op())
		}
		return sc
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(5); i > 0; i-- {
			l = append(l, op())
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	for i := 0; i < keys; i++ {
		sc.Post = append(sc.Post, Op{K: "get", A: fmt.Sprintf("k%d", i)})
	}
	sc.Post = append(sc.Post, Op{K: "gostr"})
	return sc
}

// ---------------------------------------------------------------- C10: reads by path through live nested objects

// hold is one value a field held.
type hold struct {
	v        string // "" is absent
	inv, ret int64  // of the write
}

// possible tells if value v may have been held at some instant of [from,to].
func possible(h []hold, v string, from, to int64) bool {
	for i, w := range h {
		if w.v != v || w.inv > to {
			continue
		}
		dead := false
		for j, o := range h {
			if j != i && o.inv > w.ret && o.ret < from {
				dead = true
				break
			}
		}
		if !dead {
			return true
		}
	}
	return false
}

var pathValue = regexp.MustCompile(`\b([A-Z][0-9]?)\.([xy])\.(init|[0-9]+)\b`)

// pathChain gives the objects below N and the paths to them; every other one lies in a collection.
func pathChain(n int64) (objs []string, to map[string]string) {
	to = map[string]string{}
	p := "d>d"
	for i := 0; i < int(n); i++ {
		p += ">d"
		if i&1 == 1 {
			p += ">0"
		}
		objs = append(objs, fmt.Sprintf("P%d", i))
		to[p] = objs[i]
	}
	return
}

func runDSPath(c *Ctx) {
	props := []string{"C10"}
	chain, to := pathChain(c.Sc.C["chain"])
	nm := names{}
	// objects by name
	ds := map[string]*x2.XDatasetTS{}
	co := map[string]*x2.XDatasetCollectionTS{}
	holds := map[string][]hold{} // object.key
	c.Sim.Quiet(func() {
		for _, n := range append([]string{"R", "A0", "A1", "B0", "B1", "B2", "N"}, chain...) {
			d := x2.XDataset{}
			for _, k := range []string{"x", "y"} {
				v := n + "." + k + ".init"
				d[k] = v
				holds[n+"."+k] = []hold{{v, 0, 0}}
			}
			holds["R.d"] = []hold{{"A0", 0, 0}}
			ds[n] = x2.NewXDatasetTS(&d)
			nm[ds[n]] = n
			if n == "R" {
				defer func() { d["d"] = ds["A0"]; d["c"] = co["C"] }()
			}
			if n == "A0" || n == "A1" {
				defer func() { d["d"] = ds["N"] }()
			}
			if next := chain; (n == "N" || n[0] == 'P') && len(next) > 0 {
				i := 0
				if n != "N" {
					i = int(n[1]-'0') + 1
				}
				if i < len(next) {
					defer func() {
						if i&1 == 0 {
							d["d"] = ds[next[i]]
							return
						}
						x := &x2.XDatasetCollectionTS{}
						x.Push(ds[next[i]])
						d["d"] = x
					}()
				}
			}
		}
		co["C"] = &x2.XDatasetCollectionTS{}
		co["C"].Push(ds["B0"])
		co["C"].Push(ds["B1"])
	})
	nw := 0
	do := func(op Op, idx int) {
		c.call(op, idx, func(r *Rec) []any {
			switch op.K {
			case "set":
				nw++
				v := fmt.Sprintf("%s.%s.%d", op.A, op.B, nw)
				r.Extra = v
				ds[op.A].Set(op.B, v)
			case "del":
				r.Extra = ""
				ds[op.A].Del(op.B)
			case "link":
				ds["R"].Set("d", ds[op.A])
			case "push":
				co["C"].Push(ds[op.A])
			case "unshift":
				co["C"].Unshift(ds[op.A])
			case "shift":
				if co["C"].Count() > 0 {
					co["C"].Shift()
				}
			case "path":
				v, ok := ds["R"].Get(op.A)
				return []any{v, ok}
			case "pathstr":
				v, ok := ds["R"].GetString(op.A)
				return []any{v, ok}
			case "str":
				return []any{ds["R"].String()}
			case "gostr":
				return []any{ds["R"].GoString()}
			case "clone":
				r.Extra = ds["R"].Clone()
			case "dataset":
				v, ok := ds["R"].GetDataset("d")
				return []any{nm[v], ok}
			case "coll":
				v, ok := ds["R"].GetCollection("c")
				return []any{v == x2.XDatasetCollectionDef(co["C"]), ok}
			default:
				panic(op.K)
			}
			return nil
		})
	}
	ok := c.run(do)
	c.issues(props)
	if !ok {
		return
	}
	for _, r := range c.Recs {
		if r.Panic != "" {
			// two shifts may race for the last element
			if r.Op.K == "shift" && strings.Contains(r.Panic, "out of range") {
				continue
			}
			c.panics(props)
			return
		}
		if r.Op.K == "set" || r.Op.K == "del" {
			k := r.Op.A + "." + r.Op.B
			holds[k] = append(holds[k], hold{r.Extra.(string), r.Inv, r.Ret})
		}
		if r.Op.K == "link" {
			holds["R.d"] = append(holds["R.d"], hold{r.Op.A, r.Inv, r.Ret})
		}
	}
	linked := func(r *Rec) []string {
		var l []string
		for _, n := range []string{"A0", "A1"} {
			if possible(holds["R.d"], n, r.Inv, r.Ret) {
				l = append(l, n)
			}
		}
		return l
	}
	for _, r := range c.Recs {
		text := ""
		switch r.Op.K {
		case "str", "gostr":
			text = r.Out[0].(string)
		case "clone":
			c.Sim.Quiet(func() { text = r.Extra.(x2.XDatasetDef).String() })
		case "dataset":
			if n := r.Out[0].(string); !r.Out[1].(bool) || !possible(holds["R.d"], n, r.Inv, r.Ret) {
				c.Fail(props, "path", "another dataset than the ones stored there", "%s\n%s", r, c.history())
				return
			}
		case "coll":
			if !r.Out[0].(bool) || !r.Out[1].(bool) {
				c.Fail(props, "path", "another collection than the one stored there", "%s\n%s", r, c.history())
				return
			}
		}
		if text == "" {
			continue
		}
		c.probe("printed-values-check")
		seen := 0
		for _, m := range pathValue.FindAllStringSubmatch(text, -1) {
			seen++
			if !possible(holds[m[1]+"."+m[2]], m[0], r.Inv, r.Ret) {
				c.Fail(props, "path", "printed a value that was not stored there", "%s: %s\n%s", r, m[0], c.history())
				return
			}
		}
		c.Res.Probes["printed-values"] += seen
	}
	for _, r := range c.Recs {
		if r.Op.K != "path" && r.Op.K != "pathstr" {
			continue
		}
		var objs []string
		parts := strings.Split(r.Op.A, ">")
		leaf := parts[len(parts)-1]
		absent := false
		switch {
		case to[strings.Join(parts[:len(parts)-1], ">")] != "":
			objs = []string{to[strings.Join(parts[:len(parts)-1], ">")]}
		case len(parts) == 1:
			objs = []string{"R"}
		case parts[0] == "d" && len(parts) == 2:
			objs = linked(r)
		case parts[0] == "d":
			objs = []string{"N"}
		case parts[0] == "c" && len(parts) == 3:
			objs = []string{"B0", "B1", "B2"}
			absent = true // the position may not exist
		}
		good := false
		got, _ := r.Out[0].(string)
		if found := r.Out[1].(bool); !found {
			got = ""
			if r.Out[0] != nil && r.Out[0] != "" {
				objs = nil
				absent = false
			}
			good = absent
		}
		for _, o := range objs {
			if possible(holds[o+"."+leaf], got, r.Inv, r.Ret) {
				good = true
			}
		}
		c.probe("path-read-check")
		if !good {
			c.Fail(props, "path", "path read returned a value not stored there", "%s\n%s", r, c.history())
			return
		}
	}
}

func genDSPath(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}}
	if r.P(1, 8) {
		sc.C["chain"] = int64(1 + r.Intn(10))
	}
	chain, to := pathChain(sc.C["chain"])
	var deep []string
	for p := range to {
		deep = append(deep, p)
	}
	sort.Strings(deep)
	op := func() Op {
		o := draw(r, []weighted{{8, "set"}, {3, "del"}, {3, "link"}, {2, "push"}, {2, "unshift"}, {3, "shift"}, {12, "path"}, {4, "pathstr"}, {2, "str"}, {2, "gostr"}, {2, "clone"}, {1, "dataset"}, {1, "coll"}})
		if len(deep) > 0 && r.P(2, 3) {
			switch o {
			case "set", "del":
				return Op{K: o, A: pick(r, chain...), B: pick(r, "x", "y")}
			case "path", "pathstr":
				return Op{K: o, A: pick(r, deep...) + ">" + pick(r, "x", "y")}
			}
		}
		switch o {
		case "set", "del":
			return Op{K: o, A: pick(r, "R", "A0", "A1", "B0", "B1", "B2", "N"), B: pick(r, "x", "y")}
		case "link":
			return Op{K: o, A: pick(r, "A0", "A1")}
		case "push", "unshift":
			return Op{K: o, A: pick(r, "B0", "B1", "B2")}
		case "path", "pathstr":
			return Op{K: o, A: pick(r, "x", "d>x", "d>y", "d>d>x", "d>d>y", "c>0>x", "c>1>y", "c>0>y", "c>2>x", "y")}
		}
		return Op{K: o}
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(6); i > 0; i-- {
			l = append(l, op())
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	if r.P(1, 2) {
		for i := 1 + r.Intn(8); i > 0; i-- {
			sc.Pre = append(sc.Pre, op())
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		sc.Post = append(sc.Post, op())
	}
	return sc
}

// ---------------------------------------------------------------- C11, C12: one shared thread-safe collection

type costate string // one byte per element

func runCOTS(c *Ctx) {
	sc := c.Sc
	props := []string{"C11"}
	if sc.C["faulty"] != 0 {
		props = []string{"C12"}
	}
	nm := names{}
	bm := &bomb{c: c, num: 1, den: int(sc.C["den"])}
	var elems []x2.XDatasetDef
	shared := &x2.XDatasetCollectionTS{}
	st := costate("")
	c.Sim.Quiet(func() {
		for i := 0; i < int(sc.C["elems"]); i++ {
			n := parseNode(sc.S[fmt.Sprintf("E%d", i)])
			e := n.build2(fmt.Sprintf("E%d", i), nm).(x2.XDatasetDef)
			if d, ok := e.(*x2.XDataset); ok && sc.C["faulty"] != 0 {
				e = &faulty{d, bm}
				nm[e] = fmt.Sprintf("E%d", i)
			}
			elems = append(elems, e)
		}
		for _, o := range sc.Pre {
			if o.K == "init" {
				shared.Push(elems[o.N])
				st += costate(byte('0' + o.N))
			}
		}
	})
	bm.on = true
	do := func(op Op, idx int) {
		if op.K == "init" {
			return
		}
		c.call(op, idx, func(r *Rec) []any {
			switch op.K {
			case "push":
				shared.Push(elems[op.N])
			case "unshift":
				shared.Unshift(elems[op.N])
			case "pop":
				return []any{shared.Pop()}
			case "shift":
				return []any{shared.Shift()}
			case "clone":
				r.Extra = shared.Clone()
			default:
				return readCO2(shared, op.K, op.A, int(op.N))
			}
			return nil
		})
	}
	ok := c.run(do)
	bm.on = false
	c.issues(props)
	if !ok {
		return
	}
	var items []item
	c.Sim.Quiet(func() {
		for _, r := range c.Recs {
			r := r
			op := r.Op
			inj := strings.HasPrefix(r.Panic, "injected panic")
			it := item{inv: r.Inv, ret: r.Ret, desc: op.String()}
			switch op.K {
			case "push", "unshift":
				if r.Panic != "" {
					c.panics(props)
					return
				}
				it.apply = func(a any) []any {
					e := costate(byte('0' + op.N))
					if op.K == "push" {
						return []any{a.(costate) + e}
					}
					return []any{e + a.(costate)}
				}
			case "pop", "shift":
				it.apply = func(a any) []any {
					s := a.(costate)
					if s == "" || r.Panic != "" {
						// as on the plain collection: an empty one cannot give an element
						if s == "" && r.Panic != "" {
							return []any{a}
						}
						return nil
					}
					var e byte
					if op.K == "pop" {
						e, s = s[len(s)-1], s[:len(s)-1]
					} else {
						e, s = s[0], s[1:]
					}
					if r.Out[0] == any(elems[e-'0']) {
						return []any{s}
					}
					return nil
				}
			default:
				if r.Panic != "" && !inj {
					// no reader ever fails
					c.panics(props)
					return
				}
				var got string
				memo := map[costate]bool{}
				skip := inj
				if !skip {
					if op.K == "clone" {
						got = afterBracket(r.Extra.(x2.XDatasetCollectionDef).GoString())
					} else {
						got = canons(r.Out, nm)
					}
					if strings.Contains(got, "PANIC=") {
						skip = true
					}
				}
				it.apply = func(a any) []any {
					if skip {
						return []any{a}
					}
					s := a.(costate)
					okk, seen := memo[s]
					if !seen {
						p := x2.XDatasetCollection{}
						for i := 0; i < len(s); i++ {
							p = append(p, elems[s[i]-'0'])
						}
						var want string
						if op.K == "clone" {
							want = afterBracket(p.Clone().GoString())
						} else {
							want = canons(readCO2(&p, op.K, op.A, int(op.N)), nm)
						}
						okk = want == got
						memo[s] = okk
					}
					if okk {
						return []any{a}
					}
					return nil
				}
			}
			items = append(items, it)
		}
		c.lin(props, items, st, func(a any) string { return string(a.(costate)) })
	})
}

func genCOTS(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}, S: map[string]string{}}
	if prop == "C12" {
		sc.C["faulty"] = 1
		sc.C["den"] = int64(2 + r.Intn(12))
	}
	ne := 2 + r.Intn(5)
	sc.C["elems"] = int64(ne)
	for i := 0; i < ne; i++ {
		n := &node{K: "d", TS: r.P(1, 3)}
		tag := fmt.Sprintf("E%d", i)
		n.F = append(n.F, field{"id", &node{V: "s:" + tag}})
		for k := 0; k < 3; k++ {
			if r.P(1, 2) {
				v := scalarCode(r, tag+".f"+fmt.Sprint(k), i)
				if k == 1 && r.P(1, 2) {
					v = pick(r, "i:", "b:1", "f:", "T:")
					if v[1] == ':' && len(v) == 2 {
						v += fmt.Sprint(i + 1)
					}
				}
				n.F = append(n.F, field{fmt.Sprintf("f%d", k), &node{V: v}})
			}
		}
		if r.P(1, 3) {
			n.F = append(n.F, field{"c0", genColl(r, 0, 30, tag+".c0")})
		}
		sc.S[fmt.Sprintf("E%d", i)] = n.String()
	}
	el := func() int64 { return int64(r.Intn(ne)) }
	n0 := r.Intn(5)
	if r.P(1, 30) {
		n0 = 6 + r.Intn(60)
		if r.P(1, 12) {
			n0 = 100 + r.Intn(200)
		}
	}
	op := func() Op {
		switch o := draw(r, []weighted{{7, "push"}, {5, "unshift"}, {7, "pop"}, {6, "shift"}, {2, "clone"}, {12, "read"}}); o {
		case "push", "unshift":
			return Op{K: o, N: el()}
		case "read":
			k := coReads[r.Intn(len(coReads))]
			if r.P(1, 4) {
				k = "data"
			}
			switch k {
			case "count", "str", "gostr":
				return Op{K: k}
			case "at":
				if r.P(1, 3) {
					return Op{K: k, N: int64(r.Intn(n0+4) - 1)}
				}
				return Op{K: k, N: int64(r.Intn(5) - 1)}
			}
			return Op{K: k, A: pick(r, "id", "f0", "f1", "f2", "c0", "zz", "c0>0>f0")}
		default:
			return Op{K: o}
		}
	}
	for i := n0; i > 0; i-- {
		sc.Pre = append(sc.Pre, Op{K: "init", N: el()})
	}
	if r.P(1, 8) {
		for i := seqLen(r); i > 0; i-- {
			sc.Pre = append(sc.Pre, op())
		}
		return sc
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(5); i > 0; i-- {
			l = append(l, op())
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	sc.Post = append(sc.Post, Op{K: "count"}, Op{K: "str"}, Op{K: "data", A: "id"})
	return sc
}

func init() {
	register(&World{"dsts", genDSTS, runDSTS})
	register(&World{"dspath", genDSPath, runDSPath})
	register(&World{"cots", genCOTS, runCOTS})
	real := "v2/xdatasetts.go, v2/xdatasetcollectionts.go, v2/xdataset.go, v2/xdatasetcollection.go, complete (instrumented); fmt as it is"
	stub := "goroutine scheduler, sync primitives, map order: simulator"
	props["C10"] = &propDef{ID: "C10", Worlds: []string{"dsts", "dsts", "dspath"}, Quick: 360000, Deep: 6000000, Real: real, Stub: stub}
	props["C11"] = &propDef{ID: "C11", Worlds: []string{"cots"}, Quick: 360000, Deep: 6000000, Real: real, Stub: stub}
	props["C12"] = &propDef{ID: "C12", Worlds: []string{"dsts", "cots"}, Quick: 360000, Deep: 6000000, Real: real, Stub: stub + "; user-supplied datasets: harness type that panics on seeded calls"}
}
