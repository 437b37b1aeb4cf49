package main

import (
	"fmt"
	"reflect"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"vsim"
)

// ---------------------------------------------------------------- C24: datasets and collections of the user that fail

// userBomb decides where the user-supplied parts of the structures being built fail; nil: nowhere.
var userBomb *bomb

// off switches the bomb off and gives the way back.
func (b *bomb) off() func() {
	if b == nil {
		return func() {}
	}
	was := b.on
	b.on = false
	return func() { b.on = was }
}

type user2 struct {
	x2.XDatasetDef
	b *bomb
}

func (u *user2) Get(key string) (interface{}, bool) {
	u.b.maybe("Get")
	return u.XDatasetDef.Get(key)
}

func (u *user2) GetString(key string) (string, bool) {
	u.b.maybe("GetString")
	return u.XDatasetDef.GetString(key)
}

func (u *user2) GetDataset(key string) (x2.XDatasetDef, bool) {
	u.b.maybe("GetDataset")
	return u.XDatasetDef.GetDataset(key)
}

func (u *user2) GetCollection(key string) (x2.XDatasetCollectionDef, bool) {
	u.b.maybe("GetCollection")
	return u.XDatasetDef.GetCollection(key)
}

type userCo2 struct {
	x2.XDatasetCollectionDef
	b *bomb
}

func (u *userCo2) Count() int {
	u.b.maybe("Count")
	return u.XDatasetCollectionDef.Count()
}

func (u *userCo2) Get(index int) (x2.XDatasetDef, bool) {
	u.b.maybe("collection Get")
	return u.XDatasetCollectionDef.Get(index)
}

type user1 struct {
	x1.XDatasetDef
	b *bomb
}

func (u *user1) Get(key string) (interface{}, bool) {
	u.b.maybe("Get")
	return u.XDatasetDef.Get(key)
}

func (u *user1) GetString(key string) (string, bool) {
	u.b.maybe("GetString")
	return u.XDatasetDef.GetString(key)
}

func (u *user1) GetDataset(key string) (x1.XDatasetDef, bool) {
	u.b.maybe("GetDataset")
	return u.XDatasetDef.GetDataset(key)
}

func (u *user1) GetCollection(key string) (x1.XDatasetCollectionDef, bool) {
	u.b.maybe("GetCollection")
	return u.XDatasetDef.GetCollection(key)
}

type userCo1 struct {
	x1.XDatasetCollectionDef
	b *bomb
}

func (u *userCo1) Count() int {
	u.b.maybe("Count")
	return u.XDatasetCollectionDef.Count()
}

func (u *userCo1) Get(index int) (x1.XDatasetDef, bool) {
	u.b.maybe("collection Get")
	return u.XDatasetCollectionDef.Get(index)
}

// supplied makes some parts of a structure user-supplied ones.
func (n *node) supplied(r *vsim.RNG) {
	n.U = n.K != "" && r.P(1, 2)
	for _, f := range n.F {
		f.V.supplied(r)
	}
	for _, e := range n.E {
		e.supplied(r)
	}
}

// ---------------------------------------------------------------- C23: datasets built from ordinary maps

// plain gives a structure as ordinary maps and lists.
func (n *node) plain() any {
	switch n.K {
	case "d":
		m := map[string]interface{}{}
		for _, f := range n.F {
			m[f.N] = f.V.plain()
		}
		return m
	case "c":
		if n.W {
			l := make([]map[string]interface{}, 0, len(n.E)+1)
			for _, e := range n.E {
				l = append(l, e.plain().(map[string]interface{}))
			}
			return l
		}
		l := make([]interface{}, 0, len(n.E)+1)
		for _, e := range n.E {
			l = append(l, e.plain())
		}
		return l
	}
	return value(n.V)
}

// listKinds decides which lists are lists of maps and which are lists of anything.
func (n *node) listKinds(r *vsim.RNG) {
	n.W = n.K == "c" && r.P(1, 2)
	for _, f := range n.F {
		f.V.listKinds(r)
	}
	for _, e := range n.E {
		e.listKinds(r)
	}
}

// doubles puts equal elements into some lists.
func (n *node) doubles(r *vsim.RNG) {
	for _, f := range n.F {
		f.V.doubles(r)
	}
	for _, e := range n.E {
		e.doubles(r)
	}
	if len(n.E) > 0 && r.P(1, 3) {
		n.E = append(n.E, n.E[r.Intn(len(n.E))])
	}
}

// spoil changes everything in ordinary maps and lists.
func spoil(v any) {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range sortedKeys(x) {
			spoil(x[k])
			x[k] = "spoilt"
		}
		x["more"] = 1
	case []interface{}:
		for i := range x {
			spoil(x[i])
			x[i] = nil
		}
		_ = append(x, "spoilt")
	case []map[string]interface{}:
		for i := range x {
			spoil(x[i])
			x[i] = nil
		}
		_ = append(x, map[string]interface{}{"spoilt": 1})
	}
}

// change alters a built structure here and there; what it does depends on r and the contents alone.
func change(v any, r *vsim.RNG, depth int) {
	switch x := v.(type) {
	case x2.XDatasetDef:
		for i := 0; i < 2; i++ {
			for _, k := range []string{"d0", "d1", "c0", "c1"} {
				if !r.P(2, 3) || depth <= 0 {
					continue
				}
				if w, ok := x.Get(k); ok {
					change(w, r, depth-1)
				}
			}
			switch r.Intn(5) {
			case 0:
				x.Set(fmt.Sprintf("f%d", r.Intn(5)), r.Intn(100))
			case 1:
				x.Del(fmt.Sprintf("f%d", r.Intn(5)))
			case 2:
				x.Del([]string{"d0", "d1", "c0", "c1"}[r.Intn(4)])
			case 3:
				x.Set("d1", &x2.XDataset{"f0": "new"})
			}
		}
	case x2.XDatasetCollectionDef:
		for i := 0; i < 2; i++ {
			n := x.Count()
			if n > 0 && depth > 0 {
				if d, ok := x.Get(r.Intn(n)); ok {
					change(d, r, depth-1)
				}
			}
			switch r.Intn(5) {
			case 0:
				x.Push(&x2.XDataset{"f0": "pushed"})
			case 1:
				x.Unshift(&x2.XDataset{"f0": "unshifted"})
			case 2:
				if n > 0 {
					x.Pop()
				}
			case 3:
				if n > 0 {
					x.Shift()
				}
			}
		}
	}
}

func runBuild(c *Ctx) {
	sc := c.Sc
	props := []string{"C23"}
	spec := parseNode(sc.S["d"])
	list := sc.C["list"] != 0
	mk := func(src any) any {
		if list {
			return x2.NewXDatasetCollection(src.([]map[string]interface{}))
		}
		return x2.NewXDataset(src.(map[string]interface{}))
	}
	var src any
	var want string
	c.Sim.Quiet(func() { src = spec.plain(); want = dump2(spec.build2("", names{})) })
	type made struct {
		v    any
		want string
		r    *Rec
	}
	var all []*made
	bad := false
	do := func(op Op, idx int) {
		var v any
		r := c.call(op, idx, func(r *Rec) []any {
			v = mk(src)
			return nil
		})
		if !r.Done || r.Panic != "" {
			return
		}
		m := &made{v: v, want: want, r: r}
		all = append(all, m)
		c.Sim.Quiet(func() {
			c.probe("contents-compared")
			if s := dump2(v); s != want && !bad {
				bad = true
				c.Fail(props, "contents", "built dataset differs from its source", "got:  %.1500s\nwant: %.1500s\n%s", s, want, c.history())
			}
		})
		if bad || op.N == 0 {
			return
		}
		c.call(Op{K: "change", N: op.N}, idx, func(r *Rec) []any {
			change(v, vsim.NewRNG(uint64(op.N)), 4)
			return nil
		})
		c.Sim.Quiet(func() {
			alone := spec.build2("", names{})
			change(alone, vsim.NewRNG(uint64(op.N)), 4)
			m.want = dump2(alone)
		})
	}
	ok := c.run(do)
	c.issues(props)
	if !ok || bad {
		return
	}
	if c.panics(props) {
		return
	}
	c.Sim.Quiet(func() {
		if !sameAny(src, spec.plain()) {
			c.Fail(props, "written", "building or using a dataset changed its source", "now:    %.1500v\nbefore: %.1500v\n%s", src, spec.plain(), c.history())
			return
		}
		for i, what := range []string{"a dataset changed with another one built from the same source", "a dataset changed with its source"} {
			if i == 1 {
				spoil(src)
			}
			for _, m := range all {
				if s := dump2(m.v); s != m.want {
					c.Fail(props, "contents", what, "%s\n got:  %.1500s\n want: %.1500s\n%s", m.r, s, m.want, c.history())
					return
				}
			}
		}
		c.probe("independence-check")
	})
}

// sameAny compares ordinary structures; values that are not equal to themselves are.
func sameAny(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			if w, ok := y[k]; !ok || !sameAny(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameAny(x[i], y[i]) {
				return false
			}
		}
		return true
	case []map[string]interface{}:
		y, ok := b.([]map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameAny(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return canon(a, nil) == canon(b, nil)
}

func genBuild(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}, S: map[string]string{}}
	var n *node
	long := false
	if r.P(1, 3) {
		sc.C["list"] = 1
		n = genColl(r, 1+r.Intn(3), 0, "D")
	} else if n = genNode(r, 1+r.Intn(3), 0, "D"); r.P(1, 12) {
		long = r.P(1, 10)
		if long {
			n = genNode(r, 0, 0, "D")
		}
		n = n.deepen(r, 0, "D", long)
	}
	if !long {
		n.doubles(r) // doubles of doubles in a long chain are too many
	}
	n.listKinds(r)
	if sc.C["list"] != 0 {
		n.W = true
	}
	sc.S["d"] = n.String()
	op := func() Op {
		o := Op{K: "build"}
		if r.P(1, 2) {
			o.N = int64(1 + r.Intn(1000))
		}
		return o
	}
	for i := r.Intn(2); i > 0; i-- {
		sc.Pre = append(sc.Pre, op())
	}
	for t := 2 + r.Intn(2); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(2); i > 0; i-- {
			l = append(l, op())
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	if r.P(1, 2) {
		sc.Post = append(sc.Post, op())
	}
	return sc
}

func init() {
	register(&World{"build", genBuild, runBuild})
	props["C23"] = &propDef{ID: "C23", Worlds: []string{"build"}, Quick: 120000, Deep: 2000000,
		Real: "v2/xdataset.go and v2/xdatasetcollection.go, complete (instrumented)",
		Stub: "goroutine scheduler, sync primitives, map order: simulator"}
	props["C24"] = &propDef{ID: "C24", Worlds: []string{"tmpl"}, Quick: 100000, Deep: 1500000,
		Real: "templates, datasets, collections and languages of both modules, complete (instrumented); fmt, regexp as they are",
		Stub: "goroutine scheduler, sync primitives, map order: simulator; failing user-supplied datasets and collections: harness"}
}
