package main

import (
	"fmt"
	"strings"
	"time"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
	"vsim"
)

// ---------------------------------------------------------------- C21: objects that share nothing

// A program makes objects of its own, uses them and says what it saw. What it does is a function of kind, seed and
// version alone; where names the place of its files. Programs of one run are alike: the same names, keys and lengths.
type program struct {
	c     *Ctx
	r     *vsim.RNG
	ver   int
	tag   string
	where string
	out   []string
}

func (p *program) say(v ...any) { p.out = append(p.out, fmt.Sprint(v...)) }

// source puts a source into a file if told so; every program uses the same file name in its place.
func (p *program) source(src string) (string, bool) {
	if p.r.P(1, 2) {
		return src, false
	}
	name := p.where + "/source"
	if p.r.P(1, 4) {
		// there is no such file yet
		p.c.Sim.FS.Remove(name)
		p.missing(name)
	}
	p.c.Sim.FS.Put(name, []byte(src))
	return name, true
}

// missing loads from a file that does not exist.
func (p *program) missing(name string) {
	if p.ver == 1 {
		_, e1 := x1.NewXLanguageFromFile(name)
		_, e2 := x1.NewXLanguageFromXMLFile(name)
		_, e3 := x1.NewXTemplateFromFile(name)
		p.say(e1 != nil, e2 != nil, e3 != nil)
		return
	}
	_, e1 := x2.NewXLanguageFromFile(name)
	_, e2 := x2.NewXLanguageFromXMLFile(name)
	_, e3 := x2.NewXTemplateFromFile(name)
	p.say(e1 != nil, e2 != nil, e3 != nil)
}

func (p *program) run(kind string) string {
	func() {
		defer func() {
			if p.c.Sim.IsDead() {
				return
			}
			if e := recover(); e != nil {
				p.say("PANIC ", e)
			}
		}()
		switch kind {
		case "tmpl":
			p.tmpl()
		case "lang":
			p.lang()
		case "cache":
			p.cache()
		case "data":
			p.data()
		}
	}()
	return strings.Join(p.out, "\n")
}

func (p *program) tmpl() {
	r := p.r
	var src string
	if r.P(1, 2) {
		for {
			g := &tgen{r: r, ver: p.ver, tag: p.tag, left: 6 + r.Intn(20)}
			src = g.body(-1, 2)
			if r.P(1, 12) {
				src = g.chain()
			}
			if finite(src, p.ver) {
				break
			}
		}
	} else {
		src = fmt.Sprintf("%s {{f0}} ##e0## @@c0:s0@@ ??f1:s1?? &&s1&&[[s0]]%s-{{f0}}[[]][[s1]]%s+{{f1}}[[]]", p.tag, p.tag, p.tag)
	}
	arg, file := p.source(src)
	if p.ver == 1 {
		var t *x1.XTemplate
		var err error
		if file {
			t, err = x1.NewXTemplateFromFile(arg)
		} else {
			t, err = x1.NewXTemplateFromString(arg)
		}
		if err != nil {
			p.say("error")
			return
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			d := parseNode(tmplDataA).build1("", names{}).(x1.XDatasetDef)
			d.Set("f0", p.tag+"0")
			l := setLang1(x1.NewXLanguage("en", language.English))
			l.Set("e0", p.tag+"e")
			d.Set("#", l)
			p.say(t.Execute(d))
		}
		if r.P(1, 3) {
			p.edit(func() (int, func(int, string)) {
				return len(*t.Root), func(i int, s string) { vsim.SW((*t.Root)[i:i+1], vsim.SiteOp()); (*t.Root)[i].Data = s }
			})
		}
		p.say(t.String())
		return
	}
	var t *x2.XTemplate
	var err error
	if file {
		t, err = x2.NewXTemplateFromFile(arg)
	} else {
		t, err = x2.NewXTemplateFromString(arg)
	}
	if err != nil {
		p.say("error")
		return
	}
	if r.P(1, 3) {
		t = t.Clone()
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		n := parseNode(tmplDataA)
		n.TS = r.P(1, 3)
		d := n.build2("", names{}).(x2.XDatasetDef)
		d.Set("f0", p.tag+"0")
		l := lang2For()
		l.Set("e0", p.tag+"e")
		d.Set("#", l)
		p.say(t.Execute(d))
	}
	if r.P(1, 3) {
		p.edit(func() (int, func(int, string)) {
			return len(*t.Root), func(i int, s string) { vsim.SW((*t.Root)[i:i+1], vsim.SiteOp()); (*t.Root)[i].Data = s }
		})
	}
	p.say(t.String(), t.GoString())
}

// edit changes a parsed part of a template of one's own.
func (p *program) edit(parts func() (int, func(int, string))) {
	n, set := parts()
	if n > 0 {
		set(p.r.Intn(n), p.tag+"edited")
	}
}

func (p *program) lang() {
	r := p.r
	kind := pick(r, "txt", "xml")
	src := langTextOdd(r, kind, 1+r.Intn(4), 4, p.tag, r.P(1, 4))
	if r.P(1, 6) {
		src = src[:r.Intn(len(src))]
	}
	arg, file := p.source(src)
	if p.ver == 1 {
		t, err := lang1{}.construct(kind, file, arg)
		if err != nil {
			p.say("error")
			return
		}
		l := t.(lang1).l
		for i := r.Intn(4); i > 0; i-- {
			l.Set(fmt.Sprintf("e%d", r.Intn(4)), p.tag+fmt.Sprint(i))
			l.Del(fmt.Sprintf("e%d", r.Intn(4)))
		}
		p.say(l.GetName(), l.GetLanguage(), l.Get("e0"), l.Get("e1"), l.String(), l.GoString())
		return
	}
	t, err := lang2{}.construct(kind, file, arg)
	if err != nil {
		p.say("error")
		return
	}
	l := t.(lang2).l
	for i := r.Intn(4); i > 0; i-- {
		l.Set(fmt.Sprintf("e%d", r.Intn(4)), p.tag+fmt.Sprint(i))
		l.SetStatus(fmt.Sprintf("e%d", r.Intn(4)), p.tag)
		l.Del(fmt.Sprintf("e%d", r.Intn(4)))
	}
	p.say(l.GetName(), l.GetLanguage(), l.Get("e0"), l.GetStatus("e1"), mapString(l.GetEntries()), l.GetXML(), l.String(), l.GoString())
}

func (p *program) cache() {
	r := p.r
	type cache interface {
		Set(string, interface{})
		Get(string) (interface{}, bool)
		Del(string)
		Count() int
		Clean(int) int
		Verify() int
		Flush()
	}
	max := r.Intn(4)
	val := func(key string, t time.Time) bool { return !strings.HasSuffix(key, "3") }
	var c cache
	if p.ver == 1 {
		x := x1.NewXCache("id", max, 0)
		if r.P(1, 3) {
			x.Validator = val
		}
		c = x
	} else {
		x := x2.NewXCache("id", max, 0)
		if r.P(1, 3) {
			x.Validator = val
		}
		c = x
	}
	for i := 3 + r.Intn(8); i > 0; i-- {
		k := fmt.Sprintf("k%d", r.Intn(4))
		switch r.Intn(8) {
		case 0, 1, 2:
			c.Set(k, p.tag+fmt.Sprint(i))
		case 3, 4:
			v, bad := c.Get(k)
			p.say(v, bad)
		case 5:
			c.Del(k)
		case 6:
			p.say(c.Clean([]int{0, 34, 50, 100}[r.Intn(4)]), c.Count())
		case 7:
			if r.P(1, 4) {
				c.Flush()
			}
			p.say(c.Verify(), c.Count())
		}
	}
	for i := 0; i < 4; i++ {
		v, bad := c.Get(fmt.Sprintf("k%d", i))
		p.say(v, bad)
	}
}

func (p *program) data() {
	r := p.r
	ts := 0
	if p.ver == 2 {
		ts = []int{0, 50, 100}[r.Intn(3)]
	}
	n := genNode(r, 1, ts, p.tag)
	nm := names{}
	if p.ver == 1 {
		d := n.build1("", nm).(x1.XDatasetDef)
		for i := 1 + r.Intn(5); i > 0; i-- {
			switch r.Intn(6) {
			case 0:
				d.Set("f0", p.tag+fmt.Sprint(i))
			case 1:
				d.Del("f1")
			case 2:
				p.say(dump1(d.Clone()))
			default:
				k := dsReads[r.Intn(len(dsReads))]
				p.say(canons(readDS1(d, k, n.paths(r)), nm))
			}
		}
		return
	}
	d := n.build2("", nm).(x2.XDatasetDef)
	for i := 1 + r.Intn(5); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			d.Set("f0", p.tag+fmt.Sprint(i))
		case 1:
			d.Del("f1")
		case 2:
			p.say(dump2(d.Clone()))
		default:
			k := dsReads[r.Intn(len(dsReads))]
			p.say(canons(readDS2(d, k, n.paths(r)), nm))
		}
	}
}

func runApart(c *Ctx) {
	props := []string{"C21"}
	prog := func(op Op, where string) string {
		p := &program{c: c, r: vsim.NewRNG(uint64(op.N)), ver: 1 + int(op.M), tag: op.B, where: where}
		return p.run(op.A)
	}
	do := func(op Op, idx int) {
		c.call(op, idx, func(r *Rec) []any { return []any{prog(op, fmt.Sprintf("t%d", r.Task))} })
	}
	ok := c.run(do)
	c.issues(props)
	if !ok || c.panics(props) {
		return
	}
	c.main(func() {
		alone := map[Op]string{}
		for _, r := range append([]*Rec(nil), c.Recs...) {
			want, ok := alone[r.Op]
			if !ok {
				c.Sim.Quiet(vsim.ResetPackages)
				want = prog(r.Op, "alone")
				alone[r.Op] = want
			}
			c.probe("compared-with-alone")
			if got := r.Out[0].(string); got != want {
				c.Fail(props, "answer", "an object of its own behaves differently because of others: "+r.Op.A, "%s\n got:   %.1500s\n alone: %.1500s\n%s", r, got, want, c.history())
				return
			}
		}
	})
}

func genApart(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 1 + r.Intn(2), C: map[string]int64{}}
	kinds := []string{pick(r, "tmpl", "lang", "cache", "data")}
	if r.P(1, 3) {
		kinds = []string{"tmpl", "lang", "cache", "data"}
	}
	nseed := 1 + r.Intn(3)
	seeds := make([]int64, nseed)
	for i := range seeds {
		seeds[i] = int64(r.Intn(1 << 40))
	}
	op := func() Op {
		o := Op{K: "prog", A: kinds[r.Intn(len(kinds))], B: pick(r, "A", "B", "C"), N: seeds[r.Intn(nseed)], M: int64(sc.Ver - 1)}
		if r.P(1, 10) {
			o.M = int64(r.Intn(2))
		}
		return o
	}
	list := func(n int) []Op {
		var l []Op
		for ; n > 0; n-- {
			l = append(l, op())
		}
		return l
	}
	if r.P(1, 3) {
		sc.Pre = list(1 + r.Intn(3))
	}
	if r.P(1, 6) {
		// one after the other: what an earlier object did must not matter
		sc.Pre = append(sc.Pre, list(2+r.Intn(6))...)
		return sc
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		sc.Tasks = append(sc.Tasks, list(1+r.Intn(3)))
	}
	return sc
}

// ---------------------------------------------------------------- C22: reading a language table

var langReads = []string{"get", "gets", "getname", "getlang", "entries", "xml", "str", "gostr"}

func runLangRead(c *Ctx) {
	sc := c.Sc
	props := []string{"C22"}
	type table struct {
		l1 *x1.XLanguage
		l2 *x2.XLanguage
	}
	mk := func() *table {
		w := &table{}
		if sc.Ver == 1 {
			w.l1 = x1.NewXLanguage("n0", language.Italian)
		} else {
			w.l2 = x2.NewXLanguage("n0", language.Italian)
		}
		for _, k := range []string{"txt", "xml"} {
			if src, ok := sc.S[k]; ok {
				if sc.Ver == 1 {
					lang1{w.l1}.load(k, false, src)
				} else {
					lang2{w.l2, nil}.load(k, false, src)
				}
			}
		}
		return w
	}
	read := func(w *table, op Op) string {
		if l := w.l1; l != nil {
			switch op.K {
			case "get":
				return l.Get(op.A)
			case "getname":
				return l.GetName()
			case "getlang":
				return l.GetLanguage().String()
			case "str":
				return l.String()
			}
			return l.GoString()
		}
		l := w.l2
		switch op.K {
		case "get":
			return l.Get(op.A)
		case "gets":
			return l.GetStatus(op.A)
		case "getname":
			return l.GetName()
		case "getlang":
			return l.GetLanguage().String()
		case "entries":
			return mapString(l.GetEntries())
		case "xml":
			return l.GetXML()
		case "str":
			return l.String()
		}
		return l.GoString()
	}
	state := func(w *table) string {
		if w.l1 != nil {
			return dump1(w.l1)
		}
		return dump2(w.l2)
	}
	var w *table
	c.Sim.Quiet(func() { w = mk() })
	alone := map[Op]string{}
	do := func(op Op, idx int) {
		r := c.call(op, idx, func(r *Rec) []any { return []any{read(w, op)} })
		if !r.Done || r.Panic != "" {
			return
		}
		want, ok := alone[op]
		if !ok {
			c.Sim.Quiet(func() { want = read(mk(), op) })
			alone[op] = want
		}
		c.probe("answer-compared")
		if r.Out[0] != want {
			c.Fail(props, "answer", "answer differs from the one alone: "+op.K, "%s\n alone: %s\n%s", r, want, c.history())
		}
	}
	ok := c.run(do)
	c.issues(props)
	if !ok || c.panics(props) {
		return
	}
	c.Sim.Quiet(func() {
		if a, b := state(w), state(mk()); a != b {
			c.Fail(props, "written", "reading changed the table", "before: %s\nafter:  %s\n%s", b, a, c.history())
		}
		c.probe("contents-unchanged-check")
	})
}

func genLangRead(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 1 + r.Intn(2), C: map[string]int64{}, S: map[string]string{}}
	keys := 2 + r.Intn(6)
	for _, k := range []string{"txt", "xml"} {
		if r.P(2, 3) {
			n := r.Intn(6)
			if r.P(1, 20) {
				n = 20 + r.Intn(60)
				if r.P(1, 15) {
					n = 200 + r.Intn(120)
				}
				keys = n
			}
			sc.S[k] = langTextOdd(r, k, n, keys, k, r.P(1, 4))
		}
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(6); i > 0; i-- {
			o := Op{K: langReads[r.Intn(len(langReads))]}
			if r.P(1, 3) {
				o.K = "get"
			}
			if o.K == "get" || o.K == "gets" {
				o.A = pick(r, fmt.Sprintf("e%d", r.Intn(keys+1)), "", "zz", "E0")
			}
			l = append(l, o)
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	return sc
}

func init() {
	register(&World{"apart", genApart, runApart})
	register(&World{"langread", genLangRead, runLangRead})
	stub := "goroutine scheduler, sync primitives, clock, map order, files: simulator"
	props["C21"] = &propDef{ID: "C21", Worlds: []string{"apart"}, Quick: 120000, Deep: 3000000, Real: "all source files of both modules, complete (instrumented); encoding/xml, bufio, regexp, fmt as they are", Stub: stub}
	props["C22"] = &propDef{ID: "C22", Worlds: []string{"langread"}, Quick: 200000, Deep: 4000000, Real: "xlanguage.go of both modules, complete (instrumented); encoding/xml, bufio as they are", Stub: stub}
}
