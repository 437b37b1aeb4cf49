package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
	"vsim"
)

// ---------------------------------------------------------------- helpers

func shape1(t *x1.XTemplate, depth int) string {
	if t == nil {
		return "nil"
	}
	var b strings.Builder
	if t.Root != nil {
		fmt.Fprintf(&b, "%q", *t.Root)
	}
	var ks []string
	for k := range t.SubTemplates {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if depth < 14 {
			fmt.Fprintf(&b, " %s:(%s)", k, shape1(t.SubTemplates[k], depth+1))
		}
	}
	return b.String()
}

func shape2(t *x2.XTemplate, depth int) string {
	if t == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s", t.Name)
	if t.Root != nil {
		fmt.Fprintf(&b, "%q", *t.Root)
	}
	var ks []string
	for k := range t.SubTemplates {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if depth < 14 {
			fmt.Fprintf(&b, " %s:(%s)", k, shape2(t.SubTemplates[k], depth+1))
		}
	}
	return b.String()
}

func sub1(t *x1.XTemplate, path string) *x1.XTemplate {
	for _, n := range strings.Split(path, ">") {
		if n == "" || t == nil {
			continue
		}
		t = t.SubTemplates[n]
	}
	return t
}

func sub2(t *x2.XTemplate, path string) *x2.XTemplate {
	for _, n := range strings.Split(path, ">") {
		if n == "" || t == nil {
			continue
		}
		t = t.SubTemplates[n]
	}
	return t
}

// ---------------------------------------------------------------- C15

func runTmpl(c *Ctx) {
	sc := c.Sc
	props := []string{c.Prop}
	if sc.C["bomb"] != 0 {
		userBomb = &bomb{c: c, num: 1, den: int(sc.C["bomb"])}
		defer func() { userBomb = nil }()
	}
	nd := int(sc.C["data"])
	specs := make([]*node, nd)
	for i := range specs {
		specs[i] = parseNode(sc.S[fmt.Sprintf("d%d", i)])
	}
	type world struct {
		t1 *x1.XTemplate
		t2 *x2.XTemplate
		l1 [2]*x1.XLanguage
		l2 [2]*x2.XLanguage
		d  []any
	}
	// edits are the changes made to the languages, the data and the template between executions
	var edits []Op
	editData := func(d any, e Op) {
		if sc.Ver == 1 {
			d.(x1.XDatasetDef).Set(e.B, fmt.Sprintf("edited %d", e.M))
		} else {
			d.(x2.XDatasetDef).Set(e.B, fmt.Sprintf("edited %d", e.M))
		}
	}
	edit := func(w *world, e Op) {
		text := fmt.Sprintf("edited %d", e.M)
		switch e.A {
		case "data":
			editData(w.d[int(e.N)%nd], e)
		case "lang":
			if sc.Ver == 1 {
				w.l1[e.N&1].Set(e.B, text)
			} else {
				w.l2[e.N&1].Set(e.B, text)
			}
		case "unlang":
			if sc.Ver == 1 {
				w.l1[e.N&1].Del(e.B)
			} else {
				w.l2[e.N&1].Del(e.B)
			}
		case "template":
			if sc.Ver == 1 {
				x, _ := x1.NewXTemplateFromString(text + " {{f0}} ##e0##")
				w.t1.AddTemplate(e.B, x)
			} else {
				x, _ := x2.NewXTemplateFromString(text + " {{f0}} ##e0##")
				w.t2.AddTemplate(e.B, x)
			}
		}
	}
	data := func(w *world, i int) any {
		var d any
		l := sc.C[fmt.Sprintf("l%d", i)]
		if sc.Ver == 1 {
			d = specs[i].build1("", names{})
			if l > 0 {
				d.(x1.XDatasetDef).Set("#", w.l1[l-1])
			}
		} else {
			d = specs[i].build2("", names{})
			if l > 0 {
				d.(x2.XDatasetDef).Set("#", w.l2[l-1])
			}
		}
		for _, e := range edits {
			if e.A == "data" && int(e.N)%nd == i {
				editData(d, e)
			}
		}
		return d
	}
	mk := func() *world {
		w := &world{}
		if sc.Ver == 1 {
			w.l1[0] = setLang1(x1.NewXLanguage("en", language.English))
			w.l1[1] = x1.NewXLanguage(either(sc.C["same"] != 0, "en", "fr"), language.French)
			w.l1[1].Set("e0", "bonjour")
			w.l1[1].Set("e2", "monde")
			w.t1, _ = x1.NewXTemplateFromString(sc.S["src"])
		} else {
			w.l2[0] = lang2For()
			w.l2[1] = x2.NewXLanguage(either(sc.C["same"] != 0, "en", "fr"), language.French)
			w.l2[1].Set("e0", "bonjour")
			w.l2[1].Set("e2", "monde")
			w.t2, _ = x2.NewXTemplateFromString(sc.S["src"])
			if w.t2 != nil && sc.C["clone"] != 0 {
				w.t2 = w.t2.Clone()
			}
		}
		if w.t1 == nil && w.t2 == nil {
			return nil
		}
		for i := range specs {
			w.d = append(w.d, data(w, i))
		}
		for _, e := range edits {
			if e.A != "data" {
				edit(w, e)
			}
		}
		return w
	}
	exec := func(w *world, d any, op Op) []any {
		if sc.Ver == 1 {
			t := sub1(w.t1, op.A)
			if t == nil {
				return nil
			}
			if d == nil {
				return []any{t.Execute(nil)}
			}
			return []any{t.Execute(d.(x1.XDatasetDef))}
		}
		t := sub2(w.t2, op.A)
		if t == nil {
			return nil
		}
		if op.B == "str" {
			return []any{t.String() + t.GoString()}
		}
		if op.B == "clone" {
			t = t.Clone()
		}
		if d == nil {
			return []any{t.Execute(nil)}
		}
		return []any{t.Execute(d.(x2.XDatasetDef))}
	}
	shape := func(w *world) string {
		if sc.Ver == 1 {
			return shape1(w.t1, 0) + "\n" + dump1(w.l1[0]) + dump1(w.l1[1])
		}
		return shape2(w.t2, 0) + "\n" + dump2(w.l2[0]) + dump2(w.l2[1])
	}
	dump := func(v any) string {
		if sc.Ver == 1 {
			return dump1(v)
		}
		return dump2(v)
	}
	key := func(op Op) string { return fmt.Sprintf("%d %s %s %d", len(edits), op.A, op.B, op.N) }
	// what every execution gives alone, with nothing executed before it
	alone := map[string]string{}
	refer := func(op Op) {
		k := key(op)
		if _, ok := alone[k]; ok {
			return
		}
		vsim.ResetPackages()
		ref := mk()
		var rd any
		if op.N >= 0 {
			rd = ref.d[int(op.N)%nd]
		}
		alone[k] = safely(func() string { return fmt.Sprint(exec(ref, rd, op)...) })
	}
	referAll := func(l []Op) {
		for _, op := range l {
			switch op.K {
			case "exec":
				refer(op)
			case "edit":
				edits = append(edits, op)
			}
		}
	}
	var w *world
	c.Sim.Quiet(func() {
		if mk() == nil {
			return
		}
		referAll(sc.Pre)
		for _, l := range sc.Tasks {
			referAll(l)
		}
		referAll(sc.Post)
		if userBomb != nil {
			for i := range specs {
				refer(Op{K: "exec", N: int64(i)})
			}
		}
		edits = nil
		vsim.ResetPackages()
		w = mk()
	})
	if w == nil {
		return
	}
	pristine := map[int]string{}
	do := func(op Op, idx int) {
		if op.K == "edit" {
			c.call(op, idx, func(r *Rec) []any {
				edit(w, op)
				return nil
			})
			edits = append(edits, op)
			clear(pristine)
			c.probe("edited-in-between")
			return
		}
		var d any
		if op.N >= 0 {
			d = w.d[int(op.N)%nd]
			if op.M == 1 {
				c.Sim.Quiet(func() { d = data(w, int(op.N)%nd) })
			}
		}
		r := c.call(op, idx, func(r *Rec) []any { return exec(w, d, op) })
		if !r.Done || len(r.Out) == 0 && r.Panic == "" || strings.HasPrefix(r.Panic, "injected panic") {
			return
		}
		c.Sim.Quiet(func() {
			want := alone[key(op)]
			got := "PANIC"
			if r.Panic == "" {
				got = fmt.Sprint(r.Out...)
			} else if strings.HasPrefix(want, "PANIC") {
				want = "PANIC"
			}
			c.probe("text-compared")
			if got != want {
				c.Fail(props, "text", "text differs from the one alone", "%s\n%s\n got:   %.1500q\n alone: %.1500q\nsource: %.1500q\n%s", r, r.Panic, got, want, sc.S["src"], c.history())
				return
			}
			if op.M == 1 && d != nil {
				i := int(op.N) % nd
				if pristine[i] == "" {
					pristine[i] = dump(data(w, i))
				}
				if x := dump(d); x != pristine[i] {
					c.Fail(props, "written", "execution changed the data", "before: %.1500s\nafter:  %.1500s", pristine[i], x)
				}
			}
		})
	}
	if userBomb != nil {
		userBomb.on = true
	}
	ok := c.run(do)
	if ok && userBomb != nil {
		// everything works as before once nothing fails any more
		userBomb.on = false
		ok = c.main(func() {
			for i := range w.d {
				do(Op{K: "exec", N: int64(i)}, 0)
			}
		})
	}
	c.issues(props)
	if !ok {
		return
	}
	c.Sim.Quiet(func() {
		ref := mk()
		if a, b := shape(w), shape(ref); a != b {
			c.Fail(props, "written", "execution changed the template or the language", "before: %.1500s\nafter:  %.1500s", b, a)
		}
		for i := range w.d {
			if a, b := dump(w.d[i]), dump(ref.d[i]); a != b {
				c.Fail(props, "written", "execution changed the data", "before: %.1500s\nafter:  %.1500s\nsource: %.1500q", b, a, sc.S["src"])
				return
			}
		}
		c.probe("inputs-unchanged-check")
	})
}

func either(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func subNames(r *vsim.RNG) string {
	if r.P(1, 2) {
		return ""
	}
	return pick(r, "s0", "s1", "s2", "s3", "s0>s1", "s1>s2", "s0>s1>s2", "s1.none", "s2.first")
}

func genTmpl(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 1 + r.Intn(2), C: map[string]int64{}, S: map[string]string{}}
	left := 8 + r.Intn(40)
	if r.P(1, 25) {
		left = 150
	}
	for {
		g := &tgen{r: r, ver: sc.Ver, tag: "L", left: left}
		sc.S["src"] = g.body(-1, 2)
		if r.P(1, 10) {
			sc.S["src"] = g.chain()
		}
		if r.P(1, 60) {
			sc.S["src"] += g.many()
		}
		if finite(sc.S["src"], sc.Ver) {
			break
		}
	}
	nd := 1 + r.Intn(3)
	sc.C["data"] = int64(nd)
	sc.C["same"] = int64(r.Intn(2))
	for i := 0; i < nd; i++ {
		sc.C[fmt.Sprintf("l%d", i)] = int64(r.Intn(3))
		ts := 0
		if sc.Ver == 2 {
			ts = []int{0, 60, 100}[r.Intn(3)]
		}
		n := genNode(r, 1+r.Intn(2), ts, fmt.Sprintf("D%d", i))
		if prop == "C24" {
			n.supplied(r)
		}
		if n.longest() > 16 {
			// one loop only: nested ones would take too long
			sc.S["src"] = "@@c0:s0@@" + strings.ReplaceAll(sc.S["src"], "@@", "")
			sc.C["maxsteps"] = 5_000_000
		}
		sc.S[fmt.Sprintf("d%d", i)] = n.String()
	}
	if prop == "C24" {
		sc.C["bomb"] = int64([]int{2, 5, 20, 60}[r.Intn(4)])
	}
	if sc.Ver == 2 && r.P(1, 5) {
		sc.C["clone"] = 1
	}
	exec := func() Op {
		o := Op{K: "exec", A: subNames(r), N: int64(r.Intn(nd))}
		if r.P(1, 3) {
			o.M = 1
		}
		if r.P(1, 15) {
			o.N = -1
		}
		if r.P(1, 12) {
			o.B = "str"
		} else if r.P(1, 8) {
			o.B = "clone"
		}
		return o
	}
	// between executions
	between := func() []Op {
		var l []Op
		for i := r.Intn(3); i > 0; i-- {
			l = append(l, exec())
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			e := Op{K: "edit", A: pick(r, "data", "lang", "lang", "unlang", "template"), N: int64(r.Intn(nd)), M: int64(r.Intn(100))}
			switch e.A {
			case "data":
				e.B = fmt.Sprintf("f%d", r.Intn(4))
			case "template":
				e.B = fmt.Sprintf("s%d", r.Intn(4))
			default:
				e.B, e.N = fmt.Sprintf("e%d", r.Intn(3)), int64(r.Intn(2))
			}
			l = append(l, e)
		}
		return l
	}
	if r.P(1, 4) {
		sc.Pre = between()
	}
	most := 3
	if prop == "C24" && left < 20 && r.P(1, 6) {
		// many failures of one template
		most = 30
		sc.C["bomb"] = int64(1 + r.Intn(2))
	}
	if prop == "C15" && left < 20 && r.P(1, 12) {
		most = 30
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(most); i > 0; i-- {
			l = append(l, exec())
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	if r.P(1, 3) {
		sc.Post = append(between(), exec(), exec())
	}
	return sc
}

// ---------------------------------------------------------------- C16

// tmod is one modification of a template: what to do where.
type tmod struct {
	k, path, a string
	n          int
}

// apply performs a modification; it reports false if there was nothing to modify.
func (m tmod) apply(t *x2.XTemplate) bool {
	s := sub2(t, m.path)
	if s == nil {
		return false
	}
	switch m.k {
	case "addt":
		x, err := x2.NewXTemplateFromString(m.a)
		if err != nil {
			return false
		}
		s.AddTemplate("s"+strconv.Itoa(m.n), x)
	case "reload":
		return s.LoadString(m.a) == nil
	case "edit":
		if s.Root == nil || len(*s.Root) == 0 {
			return false
		}
		i := m.n % len(*s.Root)
		p := &(*s.Root)[i]
		data := m.a
		switch p.ParamType {
		case x2.MetaString:
		case x2.MetaVariable:
			data = "f" + strconv.Itoa(m.n&3)
		default:
			return false
		}
		// parsed parts are edited in place
		vsim.SW((*s.Root)[i:i+1], vsim.SiteOp())
		p.Data = data
	case "drop":
		if s.SubTemplates == nil {
			return false
		}
		vsim.MD(s.SubTemplates, vsim.SiteOp())("s" + strconv.Itoa(m.n))
	case "part":
		if s.Root == nil {
			return false
		}
		part := x2.XTemplateParam{ParamType: x2.MetaString, Data: m.a}
		vsim.W(s.Root, vsim.SiteOp())(vsim.A(*s.Root, vsim.SiteOp())(part))
	}
	return true
}

type thandle struct {
	t    *x2.XTemplate
	mods []tmod
	task int
}

func runTClone(c *Ctx) {
	sc := c.Sc
	props := []string{"C16"}
	src := sc.S["src"]
	orig := &thandle{}
	c.Sim.Quiet(func() { orig.t, _ = x2.NewXTemplateFromString(src) })
	if orig.t == nil {
		return
	}
	// model builds a template that was never cloned, with the same modifications
	model := func(mods []tmod) *x2.XTemplate {
		t, _ := x2.NewXTemplateFromString(src)
		for _, m := range mods {
			m.apply(t)
		}
		return t
	}
	render := func(t *x2.XTemplate, path string, n int64) string {
		s := sub2(t, path)
		if s == nil {
			return "no such template"
		}
		return s.Execute(tmplData2()[int(n)&1])
	}
	var handles []*thandle
	pickH := func(t int, op Op) *thandle {
		if op.A != "" && op.A[0] == 'o' {
			return orig
		}
		var l []*thandle
		for _, h := range handles {
			if h.task == t {
				l = append(l, h)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[int(op.A[0])%len(l)]
	}
	bad := false
	check := func(h *thandle, path string, n int64, got string, what string) {
		c.Sim.Quiet(func() {
			want := safely(func() string { return render(model(h.mods), path, n) })
			c.probe("text-compared")
			if got != want && !bad {
				bad = true
				c.Fail(props, "text", what, "%s\n got:  %.1200q\n want: %.1200q\nsource: %.1500q\nmodifications: %.600v\n%s", path, got, want, src, h.mods, c.history())
			}
		})
	}
	do := func(op Op, idx int) {
		if bad {
			return
		}
		t := vsim.CurrentTask()
		h := pickH(t, op)
		if h == nil {
			return
		}
		path := op.A[1:]
		switch op.K {
		case "clone":
			var cp *x2.XTemplate
			mods := append([]tmod{}, h.mods...)
			r := c.call(op, idx, func(r *Rec) []any { cp = h.t.Clone(); return nil })
			if !r.Done || r.Panic != "" {
				return
			}
			owner := t
			if op.M == 1 {
				owner = 2
			}
			handles = append(handles, &thandle{cp, mods, owner})
		case "exec":
			var got string
			r := c.call(op, idx, func(r *Rec) []any {
				s := sub2(h.t, path)
				if s == nil {
					got = "no such template"
					return nil
				}
				var d x2.XDatasetDef
				c.Sim.Quiet(func() { d = tmplData2()[int(op.N)&1] })
				got = s.Execute(d)
				return []any{got}
			})
			if !r.Done {
				return
			}
			if r.Panic != "" {
				got = "PANIC " + firstLine(r.Panic)
			}
			what := "clone renders differently"
			if h == orig {
				what = "original renders differently"
			}
			check(h, path, op.N, got, what)
		case "subclone":
			// the clone of a sub-template renders like it
			r := c.call(op, idx, func(r *Rec) []any {
				s := sub2(h.t, path)
				if s == nil {
					return nil
				}
				return []any{s.Clone().Execute(tmplData2()[int(op.N)&1])}
			})
			if r.Done && r.Panic == "" && len(r.Out) > 0 {
				check(h, path, op.N, r.Out[0].(string), "clone of a sub-template renders differently")
			}
		default:
			m := tmod{op.K, path, op.B, int(op.N)}
			h.mods = append(h.mods, m)
			r := c.call(op, idx, func(r *Rec) []any { return []any{m.apply(h.t)} })
			_ = r
		}
	}
	ok := c.run(do)
	c.issues(props)
	if !ok || bad || c.panics(props) {
		return
	}
	// at the end everything renders as its own modifications say
	c.Sim.Quiet(func() {
		for _, p := range []string{"", "s0", "s1", "s2", "s3", "s0>s1", "s1>s2", "n0>n1>n2"} {
			for n := int64(0); n < 2; n++ {
				check(orig, p, n, safely(func() string { return render(orig.t, p, n) }), "original renders differently at the end")
				for _, h := range handles {
					check(h, p, n, safely(func() string { return render(h.t, p, n) }), "clone renders differently at the end")
				}
			}
		}
	})
}

func genTClone(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}, S: map[string]string{}}
	source := func(rank, left int) string {
		for {
			g := &tgen{r: r, ver: 2, tag: "L", left: left}
			s := g.body(rank, 2)
			if finite(s, 2) && balanced(s, 2) && !strings.Contains(s, "|") {
				return s
			}
		}
	}
	left := 8 + r.Intn(25)
	if r.P(1, 10) {
		left = 60
		if r.P(1, 3) {
			left = 250
		}
	}
	sc.S["src"] = source(-1, left)
	many := r.P(1, 40)
	if many {
		g := &tgen{r: r, ver: 2, tag: "L"}
		sc.S["src"] += g.many()
	}
	var chain []string // sub-templates within sub-templates
	if r.P(1, 6) {
		g := &tgen{r: r, ver: 2, tag: "L"}
		head, tail := "", ""
		for i := 0; i < 3+r.Intn(8); i++ {
			chain = append(chain, fmt.Sprintf("n%d", i))
			head += fmt.Sprintf("&&n%d&&[[n%d]]%s{{%s}}", i, i, g.lit(), g.fieldName())
			if r.P(1, 3) {
				head += "&&" + pick(r, "s0", "s1", "s2", "s3") + "&&" // inherited
			}
			tail += "[[]]"
		}
		sc.S["src"] += head + tail
	}
	mode := r.Intn(3) // 0 live original, 1 split, 2 sequential
	nm := 0
	op := func(who string, mods bool) Op {
		nm++
		ws := []weighted{{6, "exec"}}
		if who == "o" || mode == 2 {
			ws = append(ws, weighted{5, "clone"})
			if mode == 0 {
				ws = append(ws, weighted{2, "subclone"})
			}
		} else {
			ws = append(ws, weighted{2, "clone"})
		}
		if mods {
			ws = append(ws, weighted{4, "addt"}, weighted{2, "reload"}, weighted{4, "edit"}, weighted{2, "drop"}, weighted{2, "part"})
		}
		p := pick(r, "", "", "s0", "s1", "s2", "s3", "s0>s1", "s1>s2")
		if many && r.P(1, 2) {
			p = fmt.Sprintf("m%d", r.Intn(60))
		}
		if chain != nil && r.P(1, 2) {
			p = strings.Join(chain[:1+r.Intn(len(chain))], ">")
		}
		o := Op{K: draw(r, ws), A: who + p, N: int64(r.Intn(4))}
		tag := fmt.Sprintf("M%d", nm)
		rank := -1
		if p != "" {
			rank = int(p[len(p)-1] - '0')
			if p[0] == 'm' || p[0] == 'n' {
				rank = maxRank
			}
		}
		switch o.K {
		case "clone":
			o.A = who
		case "subclone":
			o.A = who + pick(r, "s0", "s1", "s2", "s3")
			if chain != nil {
				o.A = who + p
			}
		case "addt":
			o.B = source(int(o.N), 6)
		case "reload":
			o.B = source(rank, 6)
		case "edit", "part":
			o.B = tag
			if r.P(1, 2) {
				o.N = int64(r.Intn(64))
			}
		}
		return o
	}
	list := func(n int, who string, mods bool) []Op {
		var l []Op
		for i := 0; i < n; i++ {
			w := who
			if who == "*" {
				w = pick(r, "o", "o", "a", "b", "c")
			}
			l = append(l, op(w, mods && !(mode == 0 && w == "o")))
		}
		return l
	}
	switch mode {
	case 0:
		for t := 2 + r.Intn(2); t > 0; t-- {
			sc.Tasks = append(sc.Tasks, list(2+r.Intn(5), "*", true))
		}
	case 1:
		sc.Pre = append(sc.Pre, Op{K: "clone", A: "o", M: 1})
		sc.Tasks = append(sc.Tasks, list(1+r.Intn(5), "o", true), list(1+r.Intn(5), "a", true))
	case 2:
		sc.Pre = list(3+r.Intn(14), "*", true)
	}
	return sc
}

// ---------------------------------------------------------------- C18

type lstep struct {
	l        []string
	inv, ret int64
}

func runLive(c *Ctx) {
	sc := c.Sc
	props := []string{"C18"}
	var tmpl *x2.XTemplate
	ds := map[string]*x2.XDatasetTS{}
	coll := &x2.XDatasetCollectionTS{}
	lang := map[string]*x2.XLanguage{"L": x2.NewXLanguage("en", language.English), "M": x2.NewXLanguage("fr", language.French)}
	holds := map[string][]hold{"R.g0": {{"", 0, 0}}, "R.g1": {{"", 0, 0}}, "R.d0": {{"D", 0, 0}}, "R.#": {{"L", 0, 0}}}
	var steps []lstep
	c.Sim.Quiet(func() {
		tmpl, _ = x2.NewXTemplateFromString(sc.S["src"])
		all := []string{"R", "D", "D2", "E0", "E1", "E2", "E3", "E4"}
		for i := int64(5); i < sc.C["elems"]; i++ {
			all = append(all, fmt.Sprintf("E%d", i))
		}
		for _, n := range all {
			d := x2.XDataset{}
			for _, k := range []string{"f0", "f1", "g0", "g1", "h0"} {
				if (n == "R") != (k[0] == 'f') && k != "h0" {
					continue
				}
				v := n + "." + k
				if v == "R.f1" {
					v = "one"
				}
				d[k] = v
				holds[n+"."+k] = []hold{{v, 0, 0}}
			}
			if n[0] == 'E' {
				d["id"] = n
			}
			ds[n] = x2.NewXDatasetTS(&d)
		}
		var l []string
		for i := int64(0); i < sc.C["elems"]; i++ {
			n := fmt.Sprintf("E%d", i)
			coll.Push(ds[n])
			l = append(l, n)
		}
		steps = append(steps, lstep{l, 0, 0})
		for _, e := range []string{"e0", "e1"} {
			for n, l := range lang {
				l.Set(e, n+"."+e)
				holds[n+"."+e] = []hold{{n + "." + e, 0, 0}}
			}
		}
		ds["R"].Set("d0", ds["D"])
		ds["R"].Set("x0", x2.NewXDatasetTS(&x2.XDataset{"z": "z"}))
		ds["R"].Set("c0", coll)
		ds["R"].Set("#", lang["L"])
	})
	if tmpl == nil {
		panic("live template does not compile: " + sc.S["src"])
	}
	nv := 0
	do := func(op Op, idx int) {
		var v, v2 string
		switch op.K {
		case "set", "lset", "lload":
			nv++
			v = fmt.Sprintf("%s.%s.%d", op.A, op.B, nv)
			v2 = fmt.Sprintf("%s.x.%d", op.A, nv)
		}
		var got string
		r := c.call(op, idx, func(r *Rec) []any {
			switch op.K {
			case "set":
				ds[op.A].Set(op.B, v)
			case "del":
				ds[op.A].Del(op.B)
			case "lset":
				lang[op.A].Set(op.B, v)
			case "ldel":
				lang[op.A].Del(op.B)
			case "lload":
				lang[op.A].LoadString("e0=" + v + "\ne1=" + v2)
			case "link":
				if op.A == "" {
					ds["R"].Del("d0")
				} else {
					ds["R"].Set("d0", ds[op.A])
				}
			case "lang":
				if op.A == "" {
					ds["R"].Del("#")
				} else {
					ds["R"].Set("#", lang[op.A])
				}
			case "push":
				coll.Push(ds[op.A])
			case "unshift":
				coll.Unshift(ds[op.A])
			case "pop", "shift":
				if coll.Count() == 0 {
					return []any{false}
				}
				if op.K == "pop" {
					coll.Pop()
				} else {
					coll.Shift()
				}
				return []any{true}
			case "exec":
				got = tmpl.Execute(ds["R"])
				return []any{got}
			}
			return nil
		})
		if !r.Done || r.Panic != "" {
			return
		}
		put := func(k, v string) { holds[k] = append(holds[k], hold{v, r.Inv, r.Ret}) }
		last := steps[len(steps)-1].l
		step := func(l []string) { steps = append(steps, lstep{l, r.Inv, r.Ret}) }
		switch op.K {
		case "set":
			put(op.A+"."+op.B, v)
		case "del":
			put(op.A+"."+op.B, "")
		case "lset":
			put(op.A+"."+op.B, v)
		case "ldel":
			put(op.A+"."+op.B, "")
		case "lload":
			put(op.A+".e0", v)
			put(op.A+".e1", v2)
		case "link":
			put("R.d0", op.A)
		case "lang":
			put("R.#", op.A)
		case "push":
			step(append(append([]string{}, last...), op.A))
		case "unshift":
			step(append([]string{op.A}, last...))
		case "pop":
			if r.Out[0].(bool) {
				step(last[:len(last)-1])
			}
		case "shift":
			if r.Out[0].(bool) {
				step(last[1:])
			}
		}
	}
	ok := c.run(do)
	c.issues(props)
	if !ok || c.panics(props) {
		return
	}
	for _, r := range c.Recs {
		if r.Op.K == "exec" {
			if msg := liveCheck(sc.S["segs"], r, holds, steps); msg != "" {
				c.Fail(props, "live", strings.SplitN(msg, ":", 2)[0], "%s\ntext: %q\n%s", msg, r.Out[0], c.history())
				return
			}
			c.probe("live-text-check")
		}
	}
}

// liveCheck compares one text with what the data held during the call.
func liveCheck(segs string, r *Rec, holds map[string][]hold, steps []lstep) string {
	rest := r.Out[0].(string)
	fail := ""
	eat := func(lit string) bool {
		if fail != "" {
			return false
		}
		if !strings.HasPrefix(rest, lit) {
			fail = fmt.Sprintf("text has another form than the template: expected %q at %.60q", lit, rest)
			return false
		}
		rest = rest[len(lit):]
		return true
	}
	val := func(end string) string {
		i := strings.Index(rest, end)
		if i < 0 {
			fail = fmt.Sprintf("text has another form than the template: expected %q after %.60q", end, rest)
			return ""
		}
		v := rest[:i]
		rest = rest[i+len(end):]
		return v
	}
	held := func(v string, keys ...string) {
		for _, k := range keys {
			if possible(holds[k], v, r.Inv, r.Ret) {
				return
			}
		}
		if fail == "" {
			fail = fmt.Sprintf("value was not held during the call: %q for %v", v, keys)
		}
	}
	may := func(key, v string) bool { return possible(holds[key], v, r.Inv, r.Ret) }
	// scoped checks a field looked up in an object linked from the root, and failing that in the root
	scoped := func(v, link, field string, objs ...string) {
		outer := may("R."+link, "")
		for _, o := range objs {
			if !may("R."+link, o) {
				continue
			}
			if v != "" && may(o+"."+field, v) {
				return
			}
			outer = outer || may(o+"."+field, "")
		}
		if outer && may("R."+field, v) {
			return
		}
		if fail == "" {
			fail = fmt.Sprintf("value was not held during the call: %q for %s of %v", v, field, objs)
		}
	}
	linked := func(v, field string) { scoped(v, "d0", field, "D", "D2") }
	// the states of the list during the call (one writer)
	var lists [][]string
	for i, s := range steps {
		end := int64(1) << 60
		if i+1 < len(steps) {
			end = steps[i+1].ret
		}
		if s.inv <= r.Ret && end >= r.Inv {
			lists = append(lists, s.l)
		}
	}
	for _, seg := range strings.Split(segs, " ") {
		if fail != "" {
			break
		}
		switch seg {
		case "f0", "f1", "h0":
			eat("<" + seg + "=")
			held(val(">"), "R."+seg)
		case "path":
			eat("<p=")
			linked(val(">"), "g0")
		case "ref":
			eat("<r=")
			linked(val(","), "g0")
			linked(val(","), "h0")
			linked(val(">"), "g1")
		case "cds":
			eat("<w")
			if strings.HasPrefix(rest, ":none") {
				eat(":none>")
				held("", "R.d0")
				break
			}
			eat("=")
			linked(val(","), "h0")
			linked(val(">"), "g0")
		case "sel":
			eat("<s=")
			switch v := val(">"); v {
			case "init":
				held("one", "R.f1")
			case "def":
				other := false
				for _, h := range holds["R.f1"] {
					other = other || (h.v != "one" && may("R.f1", h.v))
				}
				if !other {
					fail = "value was not held during the call: the default was chosen for a field that did not change"
				}
			default:
				fail = "text has another form than the template: " + v
			}
		case "e0", "e1":
			eat("<" + seg + "=")
			if v := val(">"); v != "" || !may("R.#", "") {
				var in []string
				for _, n := range []string{"L", "M"} {
					if may("R.#", n) {
						in = append(in, n+"."+seg)
					}
				}
				held(v, in...)
			}
		case "elem":
			eat("<c=")
			v := val(">")
			if v == "" {
				break // no element, or no field
			}
			i := strings.IndexByte(v, '.')
			if i < 0 {
				fail = "value was not held during the call: " + v
				break
			}
			held(v, v[:i]+".g0")
			if !everAt(lists, 0, v[:i]) {
				fail = "element was not at its position during the call: " + v
			}
		case "cond":
			eat("<k:")
			if strings.HasPrefix(rest, "none") {
				eat("none>")
				held("", "R.f1")
			} else {
				held(val(">"), "R.f1")
			}
		case "loop":
			eat("<loop>")
			if strings.HasPrefix(rest, "(none)") {
				eat("(none)</loop>")
				if !someLen(lists, 0) {
					fail = "loop found nothing in a list that was never empty"
				}
				break
			}
			n := 0
			for strings.HasPrefix(rest, "(") {
				n++
				eat("(")
				eat(strconv.Itoa(n) + " ")
				id := val(" ")
				g0 := val(" ")
				h0 := val(" ")
				f0 := val(")")
				if fail != "" {
					break
				}
				held(g0, id+".g0")
				held(f0, "R.f0")
				if h0 == "" || !may(id+".h0", h0) {
					if !may(id+".h0", "") {
						held(h0, id+".h0")
					} else {
						held(h0, "R.h0")
					}
				}
				if !everAt(lists, n-1, id) {
					fail = fmt.Sprintf("element was not at its position during the call: %s at %d, lists %v", id, n-1, lists)
				}
			}
			if fail == "" {
				eat("</loop>")
				min, max := 1<<30, 0
				for _, l := range lists {
					if len(l) < min {
						min = len(l)
					}
					if len(l) > max {
						max = len(l)
					}
				}
				if n < min || n > max {
					fail = fmt.Sprintf("loop printed a wrong number of elements: %d, the list had %d to %d", n, min, max)
				}
			}
		case "dump":
			return fail
		}
	}
	if fail == "" && rest != "" {
		fail = fmt.Sprintf("text has another form than the template: extra %.60q", rest)
	}
	return fail
}

func everAt(lists [][]string, i int, id string) bool {
	for _, l := range lists {
		if i < len(l) && l[i] == id {
			return true
		}
	}
	return false
}

func someLen(lists [][]string, n int) bool {
	for _, l := range lists {
		if len(l) == n {
			return true
		}
	}
	return false
}

func genLive(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}, S: map[string]string{}}
	sc.C["elems"] = int64(r.Intn(4))
	if r.P(1, 20) {
		sc.C["elems"] = int64(5 + r.Intn(25))
	}
	text := map[string]string{
		"f0": "<f0={{f0}}>", "f1": "<f1={{f1}}>", "path": "<p={{d0>g0}}>", "ref": "&&sr:d0&&", "e0": "<e0=##e0##>", "e1": "<e1=##e1##>",
		"elem": "<c={{c0>0>g0}}>", "h0": "<h0={{h0}}>", "cds": "??d0:sd??", "sel": "&&:f1:sp&&", "cond": "??f1:sc??", "loop": "<loop>@@c0:sl@@</loop>", "dump": "!!dump!!",
	}
	var segs []string
	src := ""
	for i := 1 + r.Intn(5); i > 0; i-- {
		s := draw(r, []weighted{{2, "f0"}, {2, "f1"}, {3, "h0"}, {2, "path"}, {3, "ref"}, {3, "cds"}, {2, "sel"}, {2, "e0"}, {1, "e1"}, {2, "elem"}, {3, "cond"}, {10, "loop"}})
		segs = append(segs, s)
		src += text[s]
	}
	if r.P(1, 5) {
		segs = append(segs, "dump")
		src += text["dump"]
	}
	text0 := src
	src = "[[sr]]<r={{g0}},{{h0}},{{g1}}>[[]][[sd]]<w={{h0}},{{g0}}>[[]][[sd.none]]<w:none>[[]][[sp]]<s=def>[[]][[spone]]<s=init>[[]][[sc]]<k:{{f1}}>[[]][[sc.none]]<k:none>[[]]"
	body := "({{.counter}} {{id}} {{g0}} {{h0}} {{f0}})"
	for _, n := range []string{"sl", "sl.first", "sl.last", "sl.even", "sl.key.1"} {
		if n == "sl" || r.P(1, 3) {
			src += "[[" + n + "]]" + body + "[[]]"
		}
	}
	src += "[[sl.none]](none)[[]]"
	if r.P(1, 6) {
		// the same deep in other sub-templates
		if r.P(1, 2) {
			text0, src = text0+src, ""
		}
		for i := r.Intn(10); i >= 0; i-- {
			text0 = fmt.Sprintf(pick(r, "&&n%d&&", "&&n%d:x0&&", "??x0:n%d??")+"[[n%d]]%s[[]]", i, i, text0)
		}
	}
	sc.S["src"] = text0 + src
	sc.S["segs"] = strings.Join(segs, " ")
	nt := 2 + r.Intn(3)
	cw := r.Intn(nt) // the task that changes the list
	for t := 0; t < nt; t++ {
		var l []Op
		for i := 1 + r.Intn(5); i > 0; i-- {
			ws := []weighted{{4, "set"}, {2, "del"}, {1, "lset"}, {1, "ldel"}, {1, "lload"}, {3, "link"}, {1, "lang"}, {5, "exec"}}
			if t == cw {
				ws = append(ws, weighted{5, "push"}, weighted{3, "unshift"}, weighted{8, "pop"}, weighted{5, "shift"})
			}
			o := Op{K: draw(r, ws)}
			switch o.K {
			case "set", "del":
				o.A = pick(r, "R", "D", "D2", "E0", "E1", "E2", "E3")
				o.B = pick(r, "g0", "g1", "h0")
				if o.A == "R" {
					o.B = pick(r, "f0", "f1", "h0")
				}
			case "lset", "ldel":
				o.A, o.B = pick(r, "L", "M"), pick(r, "e0", "e1")
			case "lload":
				o.A, o.B = pick(r, "L", "M"), "e"
			case "link":
				o.A = pick(r, "D", "D2", "")
			case "lang":
				o.A = pick(r, "L", "M", "")
			case "push", "unshift":
				o.A = pick(r, "E0", "E1", "E2", "E3", "E4")
			}
			l = append(l, o)
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	if r.P(1, 25) {
		for i := 5 + r.Intn(60); i > 0; i-- {
			o := Op{K: "exec"}
			if r.P(1, 3) {
				o = Op{K: pick(r, "set", "set", "del"), A: pick(r, "D", "D2", "E0"), B: pick(r, "g0", "h0")}
			}
			sc.Pre = append(sc.Pre, o)
		}
	}
	sc.Post = []Op{{K: "exec"}}
	return sc
}

// ---------------------------------------------------------------- C19

func runPrint(c *Ctx) {
	sc := c.Sc
	props := []string{"C19"}
	spec := parseNode(sc.S["data"])
	seen := map[string]string{}
	first := map[string]string{}
	bad := false
	see := func(what, s string, how string) {
		c.probe("print-compared")
		if old, ok := seen[what]; ok {
			if old != s && !bad {
				bad = true
				c.Fail(props, "print", "printed forms differ: "+what, "%s printed two ways for the same contents\n%s: %.1000s\n%s: %.1000s", what, first[what], old, how, s)
			}
			return
		}
		seen[what], first[what] = s, how
	}
	r := vsim.NewRNG(uint64(sc.C["order"]))
	do := func(op Op, idx int) {
		rec := c.call(op, idx, func(rec *Rec) []any {
			// build the same contents in another order, with detours
			var out []any
			pr := func(what string, f func() string) {
				s := f()
				out = append(out, s)
				see(what, s, fmt.Sprintf("build %d", idx))
			}
			var entries [][2]string
			for i := 0; i < int(sc.C["entries"]); i++ {
				e := [2]string{fmt.Sprintf("e%d", i), fmt.Sprintf("t%d", i)}
				if sc.C["twins"] == 1 {
					e = [2]string{twinName(i), fmt.Sprintf("t%d", i/12)}
				}
				entries = append(entries, e)
			}
			perm := shuffled(r, len(entries))
			if sc.Ver == 1 {
				d := buildIn1(r, spec)
				l := x1.NewXLanguage("n", language.English)
				for _, i := range perm {
					l.Set("zz"+entries[i][0], "x")
					l.Set(entries[i][0], entries[i][1])
				}
				for _, i := range perm {
					l.Del("zz" + entries[i][0])
				}
				ds := d.(x1.XDatasetDef)
				for k := 0; k < 2; k++ {
					pr("dataset String", ds.String)
					pr("dataset GoString", ds.GoString)
					co := &x1.XDatasetCollection{ds, ds}
					pr("collection String", co.String)
					pr("collection GoString", co.GoString)
					pr("clone String", func() string { return ds.Clone().String() })
					pr("language String", l.String)
					pr("language GoString", l.GoString)
				}
				ds.Set("#", l)
				t, err := x1.NewXTemplateFromString(sc.S["src"])
				if err == nil {
					pr("text", func() string { return safely(func() string { return t.Execute(ds) }) })
					pr("text", func() string { return safely(func() string { return t.Execute(ds) }) })
					pr("template String", func() string { return safely(t.String) })
				}
				return out
			}
			d := buildIn2(r, spec)
			l := x2.NewXLanguage("n", language.English)
			for _, i := range perm {
				l.Set("zz"+entries[i][0], "x")
				l.Set(entries[i][0], entries[i][1])
				if i%12 < 10 {
					l.SetStatus(entries[i][0], "ok")
				}
			}
			for _, i := range perm {
				l.Del("zz" + entries[i][0])
			}
			ds := d.(x2.XDatasetDef)
			for k := 0; k < 2; k++ {
				pr("dataset String", ds.String)
				pr("dataset GoString", ds.GoString)
				co := &x2.XDatasetCollection{ds, ds}
				pr("collection String", co.String)
				pr("collection GoString", co.GoString)
				ct := &x2.XDatasetCollectionTS{}
				ct.Push(ds)
				pr("safe collection String", ct.String)
				pr("safe collection GoString", ct.GoString)
				pr("clone String", func() string { return ds.Clone().String() })
				pr("language String", l.String)
				pr("language GoString", l.GoString)
				pr("language XML", l.GetXML)
			}
			ds.Set("#", l)
			t, err := x2.NewXTemplateFromString(sc.S["src"])
			if err == nil {
				pr("text", func() string { return t.Execute(ds) })
				pr("text", func() string { return t.Execute(ds) })
				pr("template String", t.String)
				pr("template GoString", t.GoString)
				pr("text of a clone", func() string { return t.Clone().Execute(ds) })
			}
			return out
		})
		_ = rec
	}
	ok := c.run(do)
	c.issues(props)
	if ok {
		c.panics(props)
	}
}

func shuffled(r *vsim.RNG, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func buildIn1(r *vsim.RNG, n *node) any {
	switch n.K {
	case "d":
		d := &x1.XDataset{}
		for _, i := range shuffled(r, len(n.F)) {
			if r.P(1, 2) {
				d.Set("tmp"+n.F[i].N, "x")
			}
			if r.P(1, 4) {
				d.Set(n.F[i].N, "old")
			}
			d.Set(n.F[i].N, buildIn1(r, n.F[i].V))
		}
		for _, f := range n.F {
			d.Del("tmp" + f.N)
		}
		return d
	case "c":
		x := &x1.XDatasetCollection{}
		for _, e := range n.E {
			x.Push(buildIn1(r, e).(x1.XDatasetDef))
		}
		return x
	}
	return value(n.V)
}

func buildIn2(r *vsim.RNG, n *node) any {
	switch n.K {
	case "d":
		var d x2.XDatasetDef = &x2.XDataset{}
		if n.TS {
			d = x2.NewXDatasetTS(d)
		}
		for _, i := range shuffled(r, len(n.F)) {
			if r.P(1, 2) {
				d.Set("tmp"+n.F[i].N, "x")
			}
			if r.P(1, 4) {
				d.Set(n.F[i].N, "old")
			}
			d.Set(n.F[i].N, buildIn2(r, n.F[i].V))
		}
		for _, f := range n.F {
			d.Del("tmp" + f.N)
		}
		return d
	case "c":
		var x x2.XDatasetCollectionDef = &x2.XDatasetCollection{}
		if n.TS {
			x = &x2.XDatasetCollectionTS{}
		}
		for _, e := range n.E {
			x.Push(buildIn2(r, e).(x2.XDatasetDef))
		}
		return x
	}
	return value(n.V)
}

// twinName gives names that are alike in many ways: case, spaces, prefixes, length, number value.
func twinName(i int) string {
	l := []string{"name", "Name", "NAME", "nAme", "name ", " name", "name1", "name01", "name-1", "name_1", "na:me", "eman"}
	if i < len(l) {
		return l[i]
	}
	return fmt.Sprintf("%s.%d", strings.Repeat("long", 20), i)
}

// twins adds fields with such names and equal values to a structure.
func (n *node) twins(r *vsim.RNG) {
	for i := range n.F {
		if r.P(1, 2) {
			n.F[i].V.twins(r)
		}
	}
	for _, e := range n.E {
		e.twins(r)
	}
	if n.K != "d" {
		return
	}
	v := scalarCode(r, "v", r.Intn(3))
	max := 16
	if r.P(1, 8) {
		max = 80
	}
	for i := 0; i < max; i++ {
		if max == 80 || r.P(1, 3) {
			c := v
			if r.P(1, 4) {
				c = pick(r, "i:1", "s:1", "f:1", "s:", "n", "s:name")
			}
			n.F = append(n.F, field{twinName(i), &node{V: c}})
		}
	}
}

func genPrint(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 1 + r.Intn(2), C: map[string]int64{}, S: map[string]string{}}
	ts := 0
	if sc.Ver == 2 {
		ts = 40
	}
	n := genNode(r, 1+r.Intn(2), ts, "D")
	if r.P(1, 12) {
		n = genNode(r, 0, ts, "D").deepen(r, ts, "D", false)
	}
	if r.P(1, 2) {
		n.twins(r)
	}
	sc.S["data"] = n.String()
	g := &tgen{r: r, ver: sc.Ver, tag: "L", left: 6 + r.Intn(20)}
	sc.S["src"] = g.body(-1, 2) + "!!dump!!"
	if r.P(1, 12) {
		sc.S["src"] = g.chain() + "!!dump!!"
	}
	if !finite(sc.S["src"], sc.Ver) {
		sc.S["src"] = "{{f0}}!!dump!!"
	}
	sc.C["entries"] = int64(r.Intn(7))
	if r.P(1, 8) {
		sc.C["entries"] = int64(r.Intn(60))
		if r.P(1, 12) {
			sc.C["entries"] = 100 + int64(r.Intn(200))
		}
	}
	sc.C["twins"] = int64(r.Intn(2))
	sc.C["order"] = int64(r.Next() >> 2)
	sc.Pre = []Op{{K: "build"}, {K: "build"}}
	return sc
}

func init() {
	register(&World{"tmpl", genTmpl, runTmpl})
	register(&World{"tclone", genTClone, runTClone})
	register(&World{"live", genLive, runLive})
	register(&World{"print", genPrint, runPrint})
	stub := "goroutine scheduler, sync primitives, map order: simulator"
	real := "templates, datasets, collections and languages of both modules, complete (instrumented); fmt, regexp as they are"
	props["C15"] = &propDef{ID: "C15", Worlds: []string{"tmpl"}, Quick: 120000, Deep: 1500000, Real: real, Stub: stub}
	props["C16"] = &propDef{ID: "C16", Worlds: []string{"tclone"}, Quick: 60000, Deep: 1000000, Real: real, Stub: stub}
	props["C18"] = &propDef{ID: "C18", Worlds: []string{"live"}, Quick: 240000, Deep: 2000000, Real: real, Stub: stub}
	props["C19"] = &propDef{ID: "C19", Worlds: []string{"print"}, Quick: 48000, Deep: 1500000, Real: real, Stub: stub, Order: true}
}
