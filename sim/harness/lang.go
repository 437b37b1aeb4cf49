package main

import (
	"encoding/xml"
	"fmt"
	"sort"
	"strconv"
	"strings"

	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
	"vsim"
)

// lstate is the model of a language table. Immutable.
type lstate struct {
	name, lang string
	e, s       map[string]string
}

func (l *lstate) copy() *lstate {
	n := &lstate{name: l.name, lang: l.lang, e: map[string]string{}, s: map[string]string{}}
	for k, v := range l.e {
		n.e[k] = v
	}
	for k, v := range l.s {
		n.s[k] = v
	}
	return n
}

func mapString(m map[string]string) string {
	l := make([]string, 0, len(m))
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func lstateKey(a any) string {
	l := a.(*lstate)
	return l.name + "|" + l.lang + "|" + mapString(l.e) + "|" + mapString(l.s)
}

func langOf(s string) string {
	t, _ := language.Parse(s)
	return t.String()
}

// textPairs is the meaning of the text format.
func textPairs(src string) [][2]string {
	var out [][2]string
	for _, line := range strings.Split(src, "\n") {
		line = strings.TrimSuffix(line, "\r")
		if line == "" || line[0] == '#' || line[0] == ';' {
			continue
		}
		i := strings.IndexByte(line, '=')
		if i < 0 {
			continue
		}
		k := strings.TrimSpace(line[:i])
		if k == "" {
			continue
		}
		out = append(out, [2]string{k, strings.TrimSpace(line[i+1:])})
	}
	return out
}

type xmlLang struct {
	ID      string `xml:"id,attr"`
	Lang    string `xml:"lang,attr"`
	Entries []struct {
		ID     string `xml:"id,attr"`
		Status string `xml:"status,attr"`
		Text   string `xml:",chardata"`
	} `xml:"entry"`
}

// load is the effect of a complete load.
func (l *lstate) load(kind, src string) (*lstate, bool) {
	n := l.copy()
	if kind == "txt" {
		for _, p := range textPairs(src) {
			n.e[p[0]] = p[1]
		}
		return n, true
	}
	var x xmlLang
	if err := xml.Unmarshal([]byte(src), &x); err != nil {
		return l, false
	}
	n.name = x.ID
	n.lang = langOf(x.Lang)
	for _, e := range x.Entries {
		n.e[e.ID] = e.Text
		n.s[e.ID] = e.Status
	}
	return n, true
}

func parsePrinted(s string, quoted bool) (map[string]string, bool) {
	i, j := strings.IndexByte(s, '{'), strings.LastIndexByte(s, '}')
	if i < 0 || j < i {
		return nil, false
	}
	m := map[string]string{}
	for _, f := range strings.Fields(s[i+1 : j]) {
		k := strings.IndexByte(f, ':')
		if k < 0 {
			return nil, false
		}
		v := f[k+1:]
		if quoted {
			u, err := strconv.Unquote(v)
			if err != nil {
				return nil, false
			}
			v = u
		}
		if _, dup := m[f[:k]]; dup {
			return nil, false
		}
		m[f[:k]] = v
	}
	return m, true
}

type langSnap struct {
	m    map[string]string
	want string
	rec  *Rec
}

func runLang(c *Ctx) {
	var l *x2.XLanguage
	c.Sim.Quiet(func() { l = x2.NewXLanguage("t0", language.English) })
	init := &lstate{name: "t0", lang: "en", e: map[string]string{}, s: map[string]string{}}
	nfile := 0
	var snaps []*langSnap
	do := func(op Op, idx int) {
		c.call(op, idx, func(r *Rec) []any {
			switch op.K {
			case "set":
				l.Set(op.A, op.B)
			case "get":
				return []any{l.Get(op.A)}
			case "sets":
				l.SetStatus(op.A, op.B)
			case "gets":
				return []any{l.GetStatus(op.A)}
			case "del":
				l.Del(op.A)
			case "name":
				l.SetName(op.A)
			case "getname":
				return []any{l.GetName()}
			case "lang":
				l.SetLanguage(language.Make(op.A))
			case "getlang":
				return []any{l.GetLanguage().String()}
			case "entries":
				m := l.GetEntries()
				out := mapString(m)
				// the copy belongs to the caller
				vsim.MS(m, vsim.SiteOp())("mine")("changed")
				snaps = append(snaps, &langSnap{m, mapString(m), r})
				return []any{out}
			case "xml":
				return []any{l.GetXML()}
			case "str":
				return []any{l.String()}
			case "gostr":
				return []any{l.GoString()}
			case "load":
				var err error
				if op.N&1 != 0 {
					nfile++
					name := fmt.Sprintf("f%d", nfile)
					f := c.Sim.FS.Put(name, []byte(op.B))
					if op.N&2 != 0 {
						f.Chunk = 16
					}
					if op.N&4 != 0 {
						f.ReadErrAt, f.ReadErr = int(op.M), errIO
					}
					if op.A == "txt" {
						err = l.LoadFile(name)
					} else {
						err = l.LoadXMLFile(name)
					}
				} else if op.A == "txt" {
					err = l.LoadString(op.B)
				} else {
					err = l.LoadXMLString(op.B)
				}
				return []any{err != nil}
			default:
				panic("lang op " + op.K)
			}
			return nil
		})
	}
	ok := c.run(do)
	c.issues([]string{"C08"})
	if !ok {
		return
	}
	if c.panics([]string{"C08"}) {
		return
	}
	for _, s := range snaps {
		if mapString(s.m) != s.want {
			c.Fail([]string{"C08"}, "copy", "GetEntries result changed later", "the map returned by %s is now %s\n%s", s.rec, mapString(s.m), c.history())
			return
		}
	}
	var items []item
	for _, r := range c.Recs {
		r := r
		op := r.Op
		f := func(s *lstate) *lstate { return s }
		cond := func(want func(s *lstate) bool) {
			f = func(s *lstate) *lstate {
				if want(s) {
					return s
				}
				return nil
			}
		}
		switch op.K {
		case "set":
			f = func(s *lstate) *lstate { n := s.copy(); n.e[op.A] = op.B; return n }
		case "sets":
			f = func(s *lstate) *lstate { n := s.copy(); n.s[op.A] = op.B; return n }
		case "del":
			f = func(s *lstate) *lstate { n := s.copy(); delete(n.e, op.A); delete(n.s, op.A); return n }
		case "name":
			f = func(s *lstate) *lstate { n := s.copy(); n.name = op.A; return n }
		case "lang":
			f = func(s *lstate) *lstate { n := s.copy(); n.lang = langOf(op.A); return n }
		case "load":
			if !r.Out[0].(bool) {
				f = func(s *lstate) *lstate {
					n, ok := s.load(op.A, op.B)
					if !ok {
						return nil
					}
					return n
				}
			}
		case "get":
			cond(func(s *lstate) bool { return s.e[op.A] == r.Out[0] })
		case "gets":
			cond(func(s *lstate) bool { return s.s[op.A] == r.Out[0] })
		case "getname":
			cond(func(s *lstate) bool { return s.name == r.Out[0] })
		case "getlang":
			cond(func(s *lstate) bool { return s.lang == r.Out[0] })
		case "entries":
			cond(func(s *lstate) bool { return mapString(s.e) == r.Out[0] })
		case "str", "gostr":
			m, ok := parsePrinted(r.Out[0].(string), op.K == "gostr")
			ms := mapString(m)
			cond(func(s *lstate) bool { return ok && mapString(s.e) == ms })
		case "xml":
			var x xmlLang
			err := xml.Unmarshal([]byte(r.Out[0].(string)), &x)
			e, st := map[string]string{}, map[string]string{}
			for _, i := range x.Entries {
				e[i.ID] = i.Text
				st[i.ID] = i.Status
			}
			me := mapString(e)
			cond(func(s *lstate) bool {
				if err != nil || s.name != x.ID || s.lang != langOf(x.Lang) || mapString(s.e) != me {
					return false
				}
				for k, v := range st {
					if s.s[k] != v {
						return false
					}
				}
				return true
			})
		}
		items = append(items, item{inv: r.Inv, ret: r.Ret, desc: op.String(), apply: func(a any) []any {
			if n := f(a.(*lstate)); n != nil {
				return []any{n}
			}
			return nil
		}})
	}
	c.lin([]string{"C08"}, items, init, lstateKey)
}

// lin runs the linearizability check and reports.
func (c *Ctx) lin(props []string, items []item, init any, key func(any) string) {
	var ok, incon bool
	var best []int
	if len(c.Sc.Tasks) == 0 {
		i, sts, incon := inOrder(items, init, key)
		c.Res.Incon = c.Res.Incon || incon
		if i >= 0 {
			var l []string
			for _, s := range sts {
				l = append(l, key(s))
			}
			c.Fail(props, "history", "sequential "+strings.Fields(items[i].desc)[0], "impossible step: %s\nmodel before it: %.600s\n%s", items[i].desc, strings.Join(l, " or "), c.history())
		}
		c.probe("sequential-history")
		return
	}
	ok, incon, best = linearize(items, init, key, 20000)
	c.Res.Incon = c.Res.Incon || incon
	if !ok {
		var b strings.Builder
		for _, i := range best {
			b.WriteString("    " + items[i].desc + "\n")
		}
		c.Fail(props, "history", "not linearizable", "no one-at-a-time order explains this history\n%s  longest possible order:\n%s", c.history(), b.String())
	}
	c.probe("linearizability-check")
}

// panics reports the first panic that was not injected.
func (c *Ctx) panics(props []string) bool {
	for _, r := range c.Recs {
		if r.Panic != "" && !strings.HasPrefix(r.Panic, "injected panic") {
			c.Fail(props, "crash", "panic in "+r.Op.K+": "+firstLine(r.Panic), "operation failed: %s\n%s\nhistory:\n%s", r, r.Panic, c.history())
			return true
		}
	}
	return false
}

func langText(r *vsim.RNG, kind string, n, keys int, tag string) string {
	return langTextOdd(r, kind, n, keys, tag, false)
}

// langTextOdd may use unusual forms too.
func langTextOdd(r *vsim.RNG, kind string, n, keys int, tag string, odd bool) string {
	var b strings.Builder
	if kind == "txt" {
		eol := "\n"
		if odd && r.P(1, 3) {
			eol = "\r\n"
		}
		for i := 0; i < n; i++ {
			if r.P(1, 8) {
				b.WriteString("# comment=x" + eol)
			}
			if odd && r.P(1, 2) {
				k := r.Intn(keys)
				b.WriteString([]string{"", ";e0=no", "no value", "=no key", " =no key", fmt.Sprintf("e%d=", k), fmt.Sprintf(" e%d = %s.%d \t", k, tag, i),
					fmt.Sprintf("e%d=%s=%d=", k, tag, i), fmt.Sprintf("e%d=#%s;%d", k, tag, i), fmt.Sprintf("e%d==", k), fmt.Sprintf("e%d=é%s\x00", k, tag)}[r.Intn(11)] + eol)
				continue
			}
			fmt.Fprintf(&b, "e%d=%s.%d%s", r.Intn(keys), tag, i, eol)
		}
		if odd && r.P(1, 2) {
			return strings.TrimSuffix(b.String(), eol)
		}
		return b.String()
	}
	fmt.Fprintf(&b, `<?xml version="1.0" encoding="UTF-8"?><language id="%s" lang="%s">`, tag, func() string {
		if odd && r.P(1, 3) {
			return pick(r, "", "not a tag", "x", "en-US", "zz-12345678901")
		}
		return pick(r, "en", "fr", "es", "de")
	}())
	for i := 0; i < n; i++ {
		if odd && r.P(1, 2) {
			k := r.Intn(keys)
			b.WriteString("\n " + []string{fmt.Sprintf("<entry id=\"e%d\"></entry>", k), fmt.Sprintf("<entry id=\"e%d\"/>", k), fmt.Sprintf("<entry id=\"e%d\">%s.%d</entry>", k, tag, i),
				fmt.Sprintf("<entry status=\"ok\" id=\"e%d\"><![CDATA[%s <b>&amp; %d]]></entry>", k, tag, i), fmt.Sprintf("<entry id=\"e%d\" status=\"\">&lt;%s&amp;%d</entry>", k, tag, i),
				"<!-- <entry id=\"e0\">no</entry> -->", "<other id=\"e0\">no</other>", fmt.Sprintf("<entry id=\"e%d\" status=\"a&quot;b\">\n  %s\n</entry>", k, tag)}[r.Intn(8)])
			continue
		}
		fmt.Fprintf(&b, "\n <entry id=\"e%d\" status=\"%s\">%s.%d</entry>", r.Intn(keys), pick(r, "new", "ok"), tag, i)
	}
	b.WriteString("\n</language>")
	return b.String()
}

// seqLen gives the length of a program of one thread.
func seqLen(r *vsim.RNG) int {
	n := 5 + r.Intn(40)
	if r.P(1, 6) {
		n += r.Intn(160)
	}
	return n
}

func genLang(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 2, C: map[string]int64{}}
	keys := 1 + r.Intn(4)
	wide := r.P(1, 40)
	if wide {
		keys = 20 + r.Intn(60)
		if r.P(1, 10) {
			keys = 200 + r.Intn(120)
		}
	}
	odd := r.P(1, 6)
	nv := 0
	op := func() Op {
		k := fmt.Sprintf("e%d", r.Intn(keys))
		nv++
		v := fmt.Sprintf("v%d", nv)
		if odd && r.P(1, 5) {
			k = ""
		}
		if odd && r.P(1, 3) {
			v = pick(r, "", "same", "v1")
		}
		switch o := draw(r, []weighted{{8, "set"}, {6, "get"}, {3, "sets"}, {3, "gets"}, {4, "del"}, {3, "name"}, {3, "getname"}, {2, "lang"}, {2, "getlang"},
			{4, "entries"}, {4, "xml"}, {2, "str"}, {2, "gostr"}, {6, "load"}}); o {
		case "set", "sets":
			return Op{K: o, A: k, B: v}
		case "get", "gets", "del":
			return Op{K: o, A: k}
		case "name":
			return Op{K: o, A: "n" + v}
		case "lang":
			return Op{K: o, A: pick(r, "en", "fr", "es", "de")}
		case "load":
			x := Op{K: o, A: pick(r, "txt", "xml")}
			n := 1 + r.Intn(4)
			if wide && r.P(1, 2) {
				n = keys
			}
			x.B = langText(r, x.A, n, keys, "L"+v)
			if r.P(1, 2) {
				x.N = 1
				if r.P(1, 3) {
					x.N |= 2
				}
				if r.P(1, 5) {
					x.N |= 4
					x.M = int64(r.Intn(len(x.B) + 1))
				}
			} else if r.P(1, 6) {
				if x.A == "txt" {
					x.B += "big=" + strings.Repeat("z", 70000) + "\n"
				} else {
					x.B = x.B[:r.Intn(len(x.B))]
				}
			}
			return x
		default:
			return Op{K: o}
		}
	}
	if wide {
		k := pick(r, "txt", "xml")
		sc.Pre = append(sc.Pre, Op{K: "load", A: k, B: langText(r, k, keys, keys, "L")})
	}
	for i := r.Intn(5); i > 0; i-- {
		sc.Pre = append(sc.Pre, op())
	}
	if r.P(1, 8) {
		for i := seqLen(r); i > 0; i-- {
			sc.Pre = append(sc.Pre, op())
		}
		return sc
	}
	for t := 2 + r.Intn(3); t > 0; t-- {
		var l []Op
		for i := 1 + r.Intn(4); i > 0; i-- {
			l = append(l, op())
		}
		sc.Tasks = append(sc.Tasks, l)
	}
	sc.Post = append(sc.Post, Op{K: "xml"}, Op{K: "entries"})
	if odd {
		sc.Post = append(sc.Post, Op{K: "gets"})
	}
	for i := 0; i < keys; i++ {
		sc.Post = append(sc.Post, Op{K: "gets", A: fmt.Sprintf("e%d", i)})
	}
	return sc
}

func init() {
	register(&World{"lang", genLang, runLang})
	props["C08"] = &propDef{ID: "C08", Worlds: []string{"lang"}, Quick: 400000, Deep: 8000000,
		Real: "v2/xlanguage.go, complete (instrumented); encoding/xml, bufio as they are",
		Stub: "goroutine scheduler, sync primitives, map order, files: simulator"}
}
