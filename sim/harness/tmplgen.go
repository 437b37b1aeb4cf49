package main

import (
	"fmt"
	"regexp"
	"strings"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
	"vsim"
)

// tgen draws template sources. A body of rank k only refers to sub-templates of a higher rank: rendering always ends.
// Marks of a rank: s<k>. Fields: f* scalars, d* datasets, c* collections, e* language entries.
type tgen struct {
	r      *vsim.RNG
	ver    int
	tag    string
	simple bool // only what the reference renderer knows
	live   bool
	n      int
	left   int
}

func (g *tgen) lit() string {
	g.n++
	return pick(g.r, " ", "\n", "<b>", "</b>\n", "x") + fmt.Sprintf("%s%d", g.tag, g.n) + pick(g.r, " ", "\n", ".", "")
}

const maxRank = 3

func (g *tgen) fieldName() string {
	return pick(g.r, "f0", "f1", "f2", "f3", "d0>f0", "d1>f1", "c0>0>f0", "d0>d0>f2", "f9", "d0>c0>1>f3")
}

func (g *tgen) body(rank, depth int) string {
	r := g.r
	var b strings.Builder
	n := 1 + r.Intn(4)
	if rank < 0 && g.left >= 50 {
		n += r.Intn(g.left / 4)
	}
	for i := 0; i < n; i++ {
		g.left--
		if g.left < 0 {
			break
		}
		sub := fmt.Sprintf("s%d", rank+1+r.Intn(2))
		k := draw(r, []weighted{{6, "lit"}, {6, "var"}, {1, "comment"}, {2, "lang"}, {3, "ref"}, {2, "refd"}, {2, "ref3"}, {4, "loop"}, {4, "cond"}, {1, "dump"}, {1, "odd"}})
		if g.simple && (k == "refd" || k == "ref3" || k == "loop" || k == "cond" || k == "dump" || k == "odd") {
			k = "lit"
		}
		if rank >= maxRank && (k == "ref" || k == "refd" || k == "ref3" || k == "loop" || k == "cond") {
			k = "var"
		}
		switch k {
		case "lit":
			b.WriteString(g.lit())
		case "var":
			f := g.fieldName()
			if !g.simple && r.P(1, 4) {
				f = ".counter"
			}
			b.WriteString("{{" + f + "}}")
		case "comment":
			b.WriteString("%-- " + g.lit() + "{{f0}} --%" + pick(r, "", "\n"))
		case "lang":
			b.WriteString("##" + pick(r, "e0", "e1", "e2", "e9") + "##")
		case "ref":
			b.WriteString("&&" + sub + "&&")
		case "refd":
			b.WriteString("&&" + sub + ":" + pick(r, "d0", "d1", "f0", "d9", "c0>0") + "&&")
		case "ref3":
			b.WriteString("&&:" + pick(r, "f0", "f1", "f9") + ":" + sub + "&&")
		case "loop":
			b.WriteString("@@" + pick(r, "c0", "c1", "c9", "d0>c0") + ":" + sub + "@@")
		case "cond":
			b.WriteString("??" + pick(r, "f0", "f1", "f2", "f3", "f9", "d0", "d1", "d9") + ":" + sub + "??")
		case "dump":
			b.WriteString("!!" + pick(r, "dump", "list", "other") + "!!")
		case "odd":
			b.WriteString(pick(r, "{{", "}}", "[", "]]", "## ", "&", "@@", "??", "%--"))
		}
	}
	// sub-templates, at the end or in the middle
	if depth > 0 {
		for k := rank + 1; k <= maxRank; k++ {
			if r.P(1, 2) {
				b.WriteString(g.subs(fmt.Sprintf("s%d", k), k, depth-1))
			}
		}
	}
	if r.P(1, 2) {
		b.WriteString(g.lit())
	}
	return b.String()
}

func (g *tgen) subs(name string, rank, depth int) string {
	r := g.r
	var b strings.Builder
	one := func(n string) {
		g.left -= 2
		if g.left < 0 {
			return
		}
		b.WriteString("[[" + n + "]]" + pick(r, "", "\n"))
		b.WriteString(g.body(rank, depth))
		b.WriteString("[[]]" + pick(r, "", "\n"))
	}
	one(name)
	if g.simple {
		return b.String()
	}
	for _, v := range []string{".none", ".first", ".last", ".even", ".key.1", ".array", ".7", ".true"} {
		if r.P(1, 5) {
			one(name + v)
		}
	}
	if r.P(1, 6) {
		one(name + ".a|" + name + ".b")
	}
	return b.String()
}

// chain gives sub-templates nested in one another, each used by the one around it, with others inherited from any level.
func (g *tgen) chain() string {
	r := g.r
	top := 2 + r.Intn(7)
	loops := 1 + r.Intn(3)/2
	plain := r.P(1, 3)
	var level func(k int) string
	level = func(k int) string {
		s := g.lit() + pick(r, "", "{{"+g.fieldName()+"}}", "##e0##")
		if r.P(1, 4) {
			s += "[[s9]]" + g.lit() + "{{f0}}[[]]"
		}
		if r.P(1, 2) || k > top {
			s += "&&s9&&"
		}
		if k > top {
			return s
		}
		n := fmt.Sprintf("s%d", k)
		use := draw(r, []weighted{{2, "&&%s&&"}, {3, "&&%s:d0&&"}, {3, "??d0:%s??"}, {2, "??f0:%s??"}, {2, "@@c0:%s@@"}})
		if g.simple || plain {
			use = "&&%s&&"
		}
		if use[0] == '@' {
			loops--
			if loops < 0 {
				use = "&&%s:d0&&"
			}
		}
		use = fmt.Sprintf(use, n)
		in := "[[" + n + "]]" + level(k+1) + "[[]]"
		if r.P(1, 2) {
			return s + use + in
		}
		return s + in + use
	}
	return level(0) + "[[s9]]" + g.lit() + "{{f1}}[[]]"
}

// many gives many sub-templates, some of them used.
func (g *tgen) many() string {
	r := g.r
	var b strings.Builder
	for i := 10 + r.Intn(70); i > 0; i-- {
		fmt.Fprintf(&b, "[[m%d]]%s{{%s}}[[]]", i, g.lit(), g.fieldName())
		if r.P(1, 3) {
			fmt.Fprintf(&b, "&&m%d&&", 1+r.Intn(80))
		}
	}
	return b.String()
}

func tmplSource(r *vsim.RNG, tag string, ver int) string {
	g := &tgen{r: r, ver: ver, tag: tag, simple: r.P(1, 2), left: 6 + r.Intn(40)}
	s := g.body(-1, 2)
	if r.P(1, 12) {
		s = g.chain()
	}
	if len(s) == 0 {
		s = "e"
	}
	if r.P(1, 10) {
		// a big source, several read buffers long
		n := 100 + r.Intn(400)
		if r.P(1, 10) {
			n *= 12
		}
		s += strings.Repeat("0123456789abcdef", n) + g.lit()
	}
	return s
}

// ---------------------------------------------------------------- tokens

var tokens2 = regexp.MustCompile(`(?s)(%)--(.*?)--%(\n|\r|\r\n|\n\r)?` +
	`|(#)#([a-zA-Z0-9-_\.]+?)##` +
	`|(&)&([a-zA-Z0-9-_\=\>\:\|\.]+?)&&` +
	`|(@)@([a-zA-Z0-9-_\=\>\:\|\.]+?)@@` +
	`|(\?)\?([a-zA-Z0-9-_\=\>\:\|\.]+?)\?\?` +
	`|(\!)\!([a-zA-Z0-9-_\=\>\:\|\.]+?)\!\!` +
	`|(\{)\{([a-zA-Z0-9-_\=\>\:\|\.]+?)\}\}` +
	`|\[\[(\])\](\n|\r|\r\n|\n\r)?` +
	`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\n|\r|\r\n|\n\r)?`)

var tokens1 = regexp.MustCompile(`(?s)(%)--(.*?)--%(\n|\r|\r\n|\n\r)?` +
	`|(#)#(.+?)##` +
	`|(&)&(.+?)&&` +
	`|(@)@(.+?)@@` +
	`|(\?)\?(.+?)\?\?` +
	`|(\!)\!(.+?)\!\!` +
	`|(\{)\{(.+?)\}\}` +
	`|\[\[(\])\](\n|\r|\r\n|\n\r)?` +
	`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\n|\r|\r\n|\n\r)?`)

type token struct {
	k byte // 't' text, or the mark: % # & @ ? ! { [ ]
	s string
}

func tokenize(src string, ver int) []token {
	re := tokens2
	if ver == 1 {
		re = tokens1
	}
	var l []token
	p := 0
	for _, m := range re.FindAllStringSubmatchIndex(src, -1) {
		if m[0] > p {
			l = append(l, token{'t', src[p:m[0]]})
		}
		for i := 1; i*2 < len(m); i++ {
			if m[2*i] < 0 {
				continue
			}
			c := src[m[2*i]]
			t := token{k: c}
			if c != ']' {
				t.s = src[m[2*i+2]:m[2*i+3]]
			}
			l = append(l, t)
			break
		}
		p = m[1]
	}
	if p < len(src) {
		l = append(l, token{'t', src[p:]})
	}
	return l
}

// balanced tells if the sub-template marks of a source match.
func balanced(src string, ver int) bool {
	depth := 0
	for _, t := range tokenize(src, ver) {
		switch t.k {
		case '[':
			depth++
		case ']':
			depth--
			if depth < 0 {
				return false
			}
		}
	}
	return depth == 0
}

var rankName = regexp.MustCompile(`^s([0-9])`)

// finite tells if rendering a source (also damaged, also mixed with others of the kind) must end:
// every body only refers to sub-templates of a higher rank.
func finite(src string, ver int) bool {
	stack := []int{-1}
	for _, t := range tokenize(src, ver) {
		name := ""
		switch t.k {
		case '[':
			rank := -1
			for _, n := range strings.Split(t.s, "|") {
				if n == "" {
					continue
				}
				m := rankName.FindStringSubmatch(n)
				if m == nil {
					return false
				}
				if k := int(m[1][0] - '0'); k > rank {
					rank = k
				}
			}
			stack = append(stack, rank)
			continue
		case ']':
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		case '&':
			l := strings.Split(t.s, ":")
			name = l[0]
			if len(l) == 3 {
				name = l[2]
			}
		case '@', '?':
			l := strings.Split(t.s, ":")
			name = l[0]
			if len(l) > 1 {
				name = l[1]
			}
		default:
			continue
		}
		m := rankName.FindStringSubmatch(name)
		if m == nil {
			if name == "s" || name == "" {
				return false
			}
			continue
		}
		if int(m[1][0]-'0') <= stack[len(stack)-1] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- a small reference renderer: text, comments, fields, plain references, language

type rtmpl struct {
	toks   []token
	subs   map[string]*rtmpl
	father *rtmpl
}

func rparse(toks []token) (*rtmpl, bool) {
	root := &rtmpl{subs: map[string]*rtmpl{}}
	cur := root
	var stack []*rtmpl
	var names []string
	for _, t := range toks {
		switch t.k {
		case '[':
			stack = append(stack, cur)
			names = append(names, t.s)
			cur = &rtmpl{subs: map[string]*rtmpl{}}
		case ']':
			if len(stack) == 0 {
				return nil, false
			}
			up := stack[len(stack)-1]
			n := names[len(names)-1]
			stack, names = stack[:len(stack)-1], names[:len(names)-1]
			cur.father = up
			if strings.Contains(n, "|") {
				for _, v := range strings.Split(n, "|") {
					if v != "" {
						up.subs[v] = cur
					}
				}
			} else {
				up.subs[n] = cur
			}
			cur = up
		default:
			cur.toks = append(cur.toks, t)
		}
	}
	return root, len(stack) == 0
}

func (t *rtmpl) find(n string, ver int) *rtmpl {
	if s := t.subs[n]; s != nil {
		return s
	}
	if ver == 2 && t.father != nil {
		return t.father.find(n, ver)
	}
	return nil
}

// render gives the text, or false if the source uses what this renderer does not know.
func (t *rtmpl) render(ver int, field, lang func(string) string) (string, bool) {
	var b strings.Builder
	for _, k := range t.toks {
		switch k.k {
		case 't':
			b.WriteString(k.s)
		case '%':
		case '#':
			b.WriteString(lang(k.s))
		case '{':
			b.WriteString(field(k.s))
		case '&':
			if strings.Contains(k.s, ":") {
				return "", false
			}
			if s := t.find(k.s, ver); s != nil {
				x, ok := s.render(ver, field, lang)
				if !ok {
					return "", false
				}
				b.WriteString(x)
			}
		default:
			return "", false
		}
	}
	return b.String(), true
}

// ---------------------------------------------------------------- data to render

const tmplDataA = `{"k":"d","f":[{"n":"f0","v":{"v":"s:A0"}},{"n":"f1","v":{"v":"i:7"}},{"n":"f3","v":{"v":"s:"}},
 {"n":"d0","v":{"k":"d","f":[{"n":"f0","v":{"v":"s:Ad0"}},{"n":"d0","v":{"k":"d","f":[{"n":"f2","v":{"v":"b:1"}}]}},{"n":"c0","v":{"k":"c","e":[{"k":"d","f":[{"n":"f3","v":{"v":"s:q"}}]}]}}]}},
 {"n":"c0","v":{"k":"c","e":[{"k":"d","f":[{"n":"f0","v":{"v":"s:Ac00"}}]},{"k":"d","f":[{"n":"f1","v":{"v":"b:1"}}]},{"k":"d","f":[{"n":"f0","v":{"v":"i:7"}},{"n":"f2","v":{"v":"n"}}]}]}},
 {"n":"c1","v":{"k":"c"}}]}`

const tmplDataB = `{"k":"d","f":[{"n":"f0","v":{"v":"b:1"}},{"n":"f2","v":{"v":"s:B2"}},{"n":"f3","v":{"v":"s:B3"}},{"n":"d1","v":{"k":"d","f":[{"n":"f1","v":{"v":"s:Bd1"}}]}},
 {"n":"c1","v":{"k":"c","e":[{"k":"d","f":[{"n":"f1","v":{"v":"s:z"}}]}]}}]}`

var nodeA, nodeB = parseNode(tmplDataA), parseNode(tmplDataB)

func setLang1(l *x1.XLanguage) *x1.XLanguage {
	l.Set("e0", "hello")
	l.Set("e1", "world")
	return l
}

func lang2For() *x2.XLanguage {
	l := x2.NewXLanguage("en", language.English)
	l.Set("e0", "hello")
	l.Set("e1", "world")
	return l
}

func tmplData1() []x1.XDatasetDef {
	a := nodeA.build1("", names{}).(x1.XDatasetDef)
	a.Set("#", setLang1(x1.NewXLanguage("en", language.English)))
	b := nodeB.build1("", names{}).(x1.XDatasetDef)
	return []x1.XDatasetDef{a, b}
}

func tmplData2() []x2.XDatasetDef {
	a := nodeA.build2("", names{}).(x2.XDatasetDef)
	a.Set("#", lang2For())
	b := nodeB.build2("", names{}).(x2.XDatasetDef)
	return []x2.XDatasetDef{a, b}
}

// reference gives what a source must render for the first data set, if the reference renderer knows it.
func reference(src string, ver int) (string, bool) {
	t, ok := rparse(tokenize(src, ver))
	if !ok {
		return "", false
	}
	var field func(string) string
	if ver == 1 {
		d := tmplData1()[0]
		field = func(n string) string { v, _ := d.GetString(n); return v }
	} else {
		d := tmplData2()[0]
		field = func(n string) string { v, _ := d.GetString(n); return v }
	}
	return t.render(ver, field, func(n string) string {
		return map[string]string{"e0": "hello", "e1": "world"}[n]
	})
}
