package main

import (
	"bufio"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
	"vsim"
)

var errIO = syscall.EIO

// ---------------------------------------------------------------- what is loaded

// target is a loadable object of either version.
type target interface {
	load(kind string, file bool, arg string) error // kind txt or xml; arg is the source or the file name
	construct(kind string, file bool, arg string) (target, error)
	state() string
	wants() func(src, kind string) (string, bool) // the state a complete load of src leads to, from the present state
}

type lang1 struct{ l *x1.XLanguage }
type lang2 struct {
	l     *x2.XLanguage
	known map[string]bool
}

func (t lang1) load(kind string, file bool, arg string) error {
	switch {
	case kind == "txt" && file:
		return t.l.LoadFile(arg)
	case kind == "txt":
		return t.l.LoadString(arg)
	case file:
		return t.l.LoadXMLFile(arg)
	}
	return t.l.LoadXMLString(arg)
}

func (t lang2) load(kind string, file bool, arg string) error {
	switch {
	case kind == "txt" && file:
		return t.l.LoadFile(arg)
	case kind == "txt":
		return t.l.LoadString(arg)
	case file:
		return t.l.LoadXMLFile(arg)
	}
	return t.l.LoadXMLString(arg)
}

func (t lang1) construct(kind string, file bool, arg string) (target, error) {
	var l *x1.XLanguage
	var err error
	switch {
	case kind == "txt" && file:
		l, err = x1.NewXLanguageFromFile(arg)
	case kind == "txt":
		l, err = x1.NewXLanguageFromString(arg)
	case file:
		l, err = x1.NewXLanguageFromXMLFile(arg)
	default:
		l, err = x1.NewXLanguageFromXMLString(arg)
	}
	if l == nil {
		return nil, err
	}
	return lang1{l}, err
}

func (t lang2) construct(kind string, file bool, arg string) (target, error) {
	var l *x2.XLanguage
	var err error
	switch {
	case kind == "txt" && file:
		l, err = x2.NewXLanguageFromFile(arg)
	case kind == "txt":
		l, err = x2.NewXLanguageFromString(arg)
	case file:
		l, err = x2.NewXLanguageFromXMLFile(arg)
	default:
		l, err = x2.NewXLanguageFromXMLString(arg)
	}
	if l == nil {
		return nil, err
	}
	return lang2{l, t.known}, err
}

func (t lang1) model() *lstate {
	m := &lstate{name: t.l.GetName(), lang: t.l.GetLanguage().String(), e: map[string]string{}, s: map[string]string{}}
	for k, v := range t.l.Entries {
		m.e[k] = v
	}
	return m
}

func (t lang2) model() *lstate {
	m := &lstate{name: t.l.GetName(), lang: t.l.GetLanguage().String(), e: t.l.GetEntries(), s: map[string]string{}}
	ids := map[string]bool{}
	for k := range m.e {
		ids[k] = true
	}
	for k := range t.known {
		ids[k] = true
	}
	for k := range ids {
		if s := t.l.GetStatus(k); s != "" {
			m.s[k] = s
		}
	}
	return m
}

func (t lang1) state() string { return lstateKey(t.model()) }
func (t lang2) state() string { return lstateKey(t.model()) }

func (t lang1) wants() func(src, kind string) (string, bool) {
	m := t.model()
	return func(src, kind string) (string, bool) {
		n, ok := m.load(kind, src)
		n.s = map[string]string{}
		return lstateKey(n), ok
	}
}

func (t lang2) wants() func(src, kind string) (string, bool) {
	m := t.model()
	return func(src, kind string) (string, bool) {
		n, ok := m.load(kind, src)
		for k, v := range n.s {
			if v == "" {
				delete(n.s, k)
			}
		}
		return lstateKey(n), ok
	}
}

// templates: the state is what they render, for several data, with every sub-template

type tmpl1 struct {
	t    *x1.XTemplate
	srcs *[]string // the complete sources loaded so far
	wild *bool     // not to be rendered: may never end
}
type tmpl2 struct {
	t    *x2.XTemplate
	srcs *[]string
	wild *bool
}

func (t tmpl1) load(kind string, file bool, arg string) error {
	if file {
		return t.t.LoadFile(arg)
	}
	return t.t.LoadString(arg)
}

func (t tmpl2) load(kind string, file bool, arg string) error {
	if file {
		return t.t.LoadFile(arg)
	}
	return t.t.LoadString(arg)
}

func (t tmpl1) construct(kind string, file bool, arg string) (target, error) {
	var n *x1.XTemplate
	var err error
	if file {
		n, err = x1.NewXTemplateFromFile(arg)
	} else {
		n, err = x1.NewXTemplateFromString(arg)
	}
	if n == nil {
		return nil, err
	}
	return tmpl1{n, &[]string{}, t.wild}, err
}

func (t tmpl2) construct(kind string, file bool, arg string) (target, error) {
	var n *x2.XTemplate
	var err error
	if file {
		n, err = x2.NewXTemplateFromFile(arg)
	} else {
		n, err = x2.NewXTemplateFromString(arg)
	}
	if n == nil {
		return nil, err
	}
	return tmpl2{n, &[]string{}, t.wild}, err
}

func safely(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("PANIC %v", e)
		}
	}()
	return f()
}

func (t tmpl1) state() string {
	var l []string
	wild := *t.wild
	var walk func(t *x1.XTemplate, path string, depth int)
	walk = func(t *x1.XTemplate, path string, depth int) {
		if wild {
			if t.Root != nil {
				l = append(l, fmt.Sprintf("%s: %q", path, *t.Root))
			}
		} else {
			for i, d := range tmplData1() {
				d := d
				l = append(l, fmt.Sprintf("%s/%d: %s", path, i, safely(func() string { return t.Execute(d) })))
			}
		}
		l = append(l, path+": "+safely(t.String))
		var ks []string
		for k := range t.SubTemplates {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if depth < 4 {
			for _, k := range ks {
				walk(t.SubTemplates[k], path+"/"+k, depth+1)
			}
		}
	}
	walk(t.t, "", 0)
	return strings.Join(l, "\n")
}

func (t tmpl2) state() string {
	var l []string
	wild := *t.wild
	var walk func(t *x2.XTemplate, path string, depth int)
	walk = func(t *x2.XTemplate, path string, depth int) {
		if wild {
			if t.Root != nil {
				l = append(l, fmt.Sprintf("%s: %q", path, *t.Root))
			}
		} else {
			for i, d := range tmplData2() {
				d := d
				l = append(l, fmt.Sprintf("%s/%d: %s", path, i, safely(func() string { return t.Execute(d) })))
			}
		}
		l = append(l, path+": "+safely(t.String))
		var ks []string
		for k := range t.SubTemplates {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if depth < 4 {
			for _, k := range ks {
				walk(t.SubTemplates[k], path+"/"+k, depth+1)
			}
		}
	}
	walk(t.t, "", 0)
	return strings.Join(l, "\n")
}

func (t tmpl1) wants() func(src, kind string) (string, bool) { return t.want }

func (t tmpl1) want(src, kind string) (string, bool) {
	r := tmpl1{x1.NewXTemplate(), nil, t.wild}
	for _, s := range *t.srcs {
		r.t.LoadString(s)
	}
	if !balanced(src, 1) {
		return "", false
	}
	if r.t.LoadString(src) != nil {
		return "", false
	}
	return r.state(), true
}

func (t tmpl2) wants() func(src, kind string) (string, bool) { return t.want }

func (t tmpl2) want(src, kind string) (string, bool) {
	r := tmpl2{x2.NewXTemplate(), nil, t.wild}
	for _, s := range *t.srcs {
		r.t.LoadString(s)
	}
	if !balanced(src, 2) {
		return "", false
	}
	if r.t.LoadString(src) != nil {
		return "", false
	}
	return r.state(), true
}

// ---------------------------------------------------------------- world

func runLoad(c *Ctx) {
	sc := c.Sc
	props := []string{"C09"}
	if sc.C["tmpl"] != 0 {
		props = []string{"C17"}
	}
	known := map[string]bool{"kept": true}
	for i := 0; i < 12; i++ {
		known[fmt.Sprintf("e%d", i)] = true
	}
	var t target
	wild := new(bool)
	c.Sim.Quiet(func() {
		switch {
		case sc.C["tmpl"] != 0 && sc.Ver == 1:
			t = tmpl1{x1.NewXTemplate(), &[]string{}, wild}
		case sc.C["tmpl"] != 0:
			t = tmpl2{x2.NewXTemplate(), &[]string{}, wild}
		case sc.Ver == 1:
			l := x1.NewXLanguage("n0", language.Italian)
			l.Set("e0", "old0")
			l.Set("e7", "old7")
			l.Set("kept", "old8") // in no source
			t = lang1{l}
		default:
			l := x2.NewXLanguage("n0", language.Italian)
			l.Set("e0", "old0")
			l.SetStatus("e0", "olds0")
			l.Set("e7", "old7")
			l.SetStatus("e7", "olds7")
			l.Set("kept", "old8") // in no source
			l.SetStatus("kept", "olds8")
			t = lang2{l, known}
		}
	})
	nfile := 0
	bad := false
	do := func(op Op, idx int) {
		if bad {
			return
		}
		file := op.N&1 != 0
		ctor := op.N&2 != 0
		arg := op.B
		var f *vsim.SimFile
		if file {
			if op.N&8 == 0 || nfile == 0 {
				nfile++ // otherwise the last file has new contents
			}
			arg = fmt.Sprintf("f%d", nfile)
			f = c.Sim.FS.Put(arg, []byte(op.B))
			plan(f, op, sc)
		}
		nh := len(c.Sim.FS.Handles)
		if sc.C["tmpl"] != 0 && (!finite(op.B, sc.Ver) || (file && f.SwapAt >= 0)) {
			*wild = true
		}
		var before string
		base := t
		if ctor {
			c.Sim.Quiet(func() { base = fresh(t) })
		}
		var wants func(src, kind string) (string, bool)
		c.Sim.Quiet(func() { before, wants = base.state(), base.wants() })
		var err error
		var made target
		r := c.call(op, idx, func(r *Rec) []any {
			if ctor {
				made, err = t.construct(op.A, file, arg)
				return []any{made != nil, err != nil}
			}
			err = t.load(op.A, file, arg)
			return []any{err != nil}
		})
		fail := func(sig, format string, a ...any) {
			bad = true
			c.Fail(props, "load", sig, "%s\n%s\n%s", fmt.Sprintf(format, a...), r, c.history())
		}
		if !r.Done {
			return
		}
		// handles
		for _, h := range c.Sim.FS.Handles[nh:] {
			if n := h.Closes(); n != 1 {
				c.Fail([]string{"C20"}, "handles", fmt.Sprintf("file closed %d times", n), "after %s the file was closed %d times\n%s", r, n, c.history())
			}
		}
		if r.Panic != "" {
			c.Fail(append([]string{"C20"}, props...), "crash", "panic in load: "+firstLine(r.Panic), "%s\n%s", r, r.Panic)
			bad = true
			return
		}
		c.Sim.Quiet(func() {
			if ctor && (err == nil) != (made != nil) {
				fail("constructor result", "error %v with an object: %v", err, made != nil)
				return
			}
			obj := base
			if ctor {
				obj = made
			}
			if err != nil {
				c.probe("load-error")
				if !ctor {
					if after := obj.state(); after != before {
						fail("changed by a failed load", "the load failed (%v) but changed the contents\nbefore: %.800s\nafter:  %.800s", err, before, after)
					}
				}
				// a failure must have a cause
				if !file || !(f.Failed || f.OpenErr != nil || f.CloseErr != nil || f.Dir) {
					if file && f.SwapAt >= 0 {
						return
					}
					if _, ok := wants(op.B, op.A); ok && !hasLong(op.B) && !oddTag(op.A, op.B) {
						fail("good source refused", "a complete and correct source was refused: %v", err)
					}
				}
				return
			}
			c.probe("load-ok")
			src := op.B
			if file {
				if f.Failed && !f.ReadErrOnce {
					fail("failed read reported as success", "reading the file failed, the load reports success")
					return
				}
				if f.Swapped {
					src = string(f.Delivered)
				}
			}
			want, ok := wants(src, op.A)
			if !ok {
				fail("bad source accepted", "an incomplete or torn source was accepted without error")
				return
			}
			if sc.C["tmpl"] != 0 && !*wild && !loadedBefore(obj) {
				if ref, ok := reference(src, sc.Ver); ok {
					c.probe("reference-render")
					if got := render0(obj); got != ref {
						fail("load incomplete", "the load reports success but the template does not render the source\nwant: %.1500q\ngot:  %.1500q", ref, got)
						return
					}
				}
			}
			if got := obj.state(); got != want {
				fail("load incomplete", "the load reports success but the contents are not those of the source\nwant: %.1500s\ngot:  %.1500s", want, got)
				return
			}
			switch x := obj.(type) {
			case tmpl1:
				*x.srcs = append(*x.srcs, src)
			case tmpl2:
				*x.srcs = append(*x.srcs, src)
			}
			if ctor && op.N&4 != 0 {
				t = obj
			}
		})
	}
	ok := c.run(do)
	c.issues(append([]string{"C20"}, props...))
	if !ok {
		return
	}
}

// oddTag tells if the language of an XML source is not one that can be parsed: it may be refused.
func oddTag(kind, src string) bool {
	if kind != "xml" {
		return false
	}
	var x xmlLang
	if xml.Unmarshal([]byte(src), &x) != nil {
		return false
	}
	_, err := language.Parse(x.Lang)
	return err != nil
}

func hasLong(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if len(l) > 60000 {
			return true
		}
	}
	return false
}

// loadedBefore tells if the template may still have sub-templates of an earlier load.
func loadedBefore(t target) bool {
	switch x := t.(type) {
	case tmpl1:
		return len(*x.srcs) > 0
	case tmpl2:
		return len(*x.srcs) > 0
	}
	return false
}

// render0 renders the first data set.
func render0(t target) string {
	switch x := t.(type) {
	case tmpl1:
		return safely(func() string { return x.t.Execute(tmplData1()[0]) })
	case tmpl2:
		return safely(func() string { return x.t.Execute(tmplData2()[0]) })
	}
	return ""
}

func fresh(t target) target {
	switch x := t.(type) {
	case lang1:
		return lang1{x1.NewXLanguage("", language.Tag{})}
	case lang2:
		return lang2{x2.NewXLanguage("", language.Tag{}), x.known}
	case tmpl1:
		return tmpl1{x1.NewXTemplate(), &[]string{}, x.wild}
	case tmpl2:
		return tmpl2{x2.NewXTemplate(), &[]string{}, x.wild}
	}
	panic("fresh")
}

// readErrs are the ways a read fails. None of them means that the file is at its end.
var readErrs = []error{errIO, io.ErrUnexpectedEOF, syscall.EISDIR, syscall.ESTALE, os.ErrDeadlineExceeded, fs.ErrClosed, io.ErrClosedPipe, syscall.ETIMEDOUT, bufio.ErrTooLong, io.ErrShortBuffer, errors.New("EOF"),
	&fs.PathError{Op: "read", Path: "f", Err: syscall.EIO}, fmt.Errorf("device: %w", io.ErrUnexpectedEOF)}

// plan puts the faults of an operation on its file: bits of N above 8.
func plan(f *vsim.SimFile, op Op, sc *Scenario) {
	fl := op.N >> 8
	if fl&1 != 0 {
		f.OpenErr = []error{syscall.EACCES, syscall.EMFILE, syscall.ENOENT, errors.New("odd open error")}[op.M&3]
	}
	if fl&2 != 0 {
		f.ReadErrAt = int(op.M)
		f.ReadErr = readErrs[int(op.N>>16)%len(readErrs)]
		f.ReadErrWithData = fl&32 != 0
		f.ReadErrOnce = fl&128 != 0
	}
	if fl&4 != 0 {
		f.Chunk = 1 + int(op.M)%37
	}
	if fl&8 != 0 {
		f.CloseErr = errIO
	}
	if fl&16 != 0 {
		f.Dir = true
	}
	if fl&64 != 0 {
		f.SwapAt = int(op.M) % (len(f.Data) + 1)
		f.Swap = []byte(sc.S["swap"])
	}
}

func genLoad(r *vsim.RNG, prop string, thorough bool) *Scenario {
	sc := &Scenario{Ver: 1 + r.Intn(2), C: map[string]int64{}, S: map[string]string{}}
	if prop == "C17" || (prop == "C20" && r.P(1, 2)) {
		sc.C["tmpl"] = 1
	}
	kinds := []string{"txt", "xml"}
	if sc.C["tmpl"] != 0 {
		kinds = []string{"txt"}
	}
	// many loads of small sources, often the same one with the same faults
	many, again := r.P(1, 25), r.P(1, 2)
	source := func(kind, tag string) string {
		if sc.C["tmpl"] != 0 && many {
			g := &tgen{r: r, ver: sc.Ver, tag: tag, simple: true, left: 6}
			return "e" + g.body(-1, 1)
		}
		if sc.C["tmpl"] != 0 {
			return tmplSource(r, tag, sc.Ver)
		}
		n := r.Intn(8)
		if many {
			return langTextOdd(r, kind, n/2, 12, tag, false) + pick(r, "", "", "", "e9="+strings.Repeat("y", 66000)+"\n")
		}
		if r.P(1, 10) {
			n = 30 + r.Intn(200)
		}
		if r.P(1, 40) {
			n = 2000
		}
		if r.P(1, 300) {
			n = 20000
		}
		keys := 12
		if n > 20 && r.P(1, 2) {
			keys = 2 * n
		}
		s := langTextOdd(r, kind, n, keys, tag, r.P(1, 3))
		if kind == "txt" && r.P(1, 8) {
			// long lines on both sides of the limit of a line scanner
			long := "e9=" + strings.Repeat("y", []int{4090, 5000, 65530, 65536, 70000, 200000}[r.Intn(6)]) + "\n"
			i := strings.IndexByte(s, '\n') + 1
			s = s[:i] + long + s[i:]
		}
		return s
	}
	sc.S["swap"] = source(kinds[r.Intn(len(kinds))], "S")
	loads := 1 + r.Intn(4)
	if many {
		loads = 5 + r.Intn(30)
	}
	for i := loads; i > 0; i-- {
		if many && again && len(sc.Pre) > 0 && r.P(3, 4) {
			sc.Pre = append(sc.Pre, sc.Pre[0])
			continue
		}
		op := Op{K: "load", A: kinds[r.Intn(len(kinds))]}
		op.B = source(op.A, fmt.Sprintf("L%d", i))
		if r.P(1, 5) {
			// torn: the source ends early
			op.B = op.B[:r.Intn(len(op.B)+1)]
		}
		if r.P(1, 12) && len(op.B) > 4 {
			// torn: a block is missing or doubled
			i := r.Intn(len(op.B))
			j := i + r.Intn(len(op.B)-i)
			if r.P(1, 2) {
				op.B = op.B[:i] + op.B[j:]
			} else {
				op.B = op.B[:j] + op.B[i:]
			}
		}
		if r.P(1, 25) {
			op.B = pick(r, "", "", " ", "\n", "\r\n\r\n", "#", "=")
		}
		if r.P(1, 12) && len(sc.Pre) > 0 {
			op.A, op.B = sc.Pre[len(sc.Pre)-1].A, sc.Pre[len(sc.Pre)-1].B
		}
		op.M = int64(r.Intn(len(op.B) + 2))
		if r.P(1, 5) {
			op.M = int64([]int{0, 1, 511, 512, 513, 4096}[r.Intn(6)])
		} else if r.P(1, 5) {
			op.M = int64(len(op.B)) // everything is read before the fault
		}
		if r.P(4, 5) {
			op.N |= 1
			if r.P(1, 4) {
				op.N |= 8
			}
			fl := int64(0)
			if r.P(1, 12) {
				fl |= 1
			}
			if r.P(1, 3) {
				fl |= 2
				if r.P(1, 2) {
					op.N |= int64(r.Intn(len(readErrs))) << 16
				}
				if r.P(1, 6) {
					fl |= 128
				}
			}
			if r.P(1, 3) {
				fl |= 4
			}
			if r.P(1, 12) {
				fl |= 8
			}
			if r.P(1, 30) {
				fl |= 16
			}
			if r.P(1, 3) {
				fl |= 32
			}
			if r.P(1, 12) && fl&2 == 0 {
				fl |= 64
			}
			op.N |= fl << 8
		}
		if r.P(1, 3) {
			op.N |= 2
			if r.P(1, 2) {
				op.N |= 4
			}
		}
		sc.Pre = append(sc.Pre, op)
	}
	return sc
}

func init() {
	register(&World{"load", genLoad, runLoad})
	for _, id := range []string{"C09", "C17", "C20"} {
		props[id] = &propDef{ID: id, Worlds: []string{"load"}, Quick: 60000, Deep: 1500000,
			Real: "xlanguage.go and xtemplate.go of both modules, loaders complete (instrumented); encoding/xml, bufio, regexp as they are",
			Stub: "files: in-memory file system with a fault plan per file; map order: simulator"}
	}
}
