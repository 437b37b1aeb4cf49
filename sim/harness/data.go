package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
	"vsim"
)

// ---------------------------------------------------------------- values

// value decodes a scalar: s:text i:7 i8:7 u:7 f:1.5 f32:1.5 b:1 n T:seconds S:a,b I:1,2 B:1,0 F:1,2 U:1,2
func value(code string) any {
	i := strings.IndexByte(code, ':')
	if i < 0 {
		return nil
	}
	k, v := code[:i], code[i+1:]
	l := strings.Split(v, ",")
	n, _ := strconv.Atoi(v)
	switch k {
	case "s":
		return v
	case "i":
		return n
	case "i8":
		return int8(n)
	case "i16":
		return int16(n)
	case "i32":
		return int32(n)
	case "i64":
		return int64(n)
	case "u":
		return uint(n)
	case "u8":
		return uint8(n)
	case "u16":
		return uint16(n)
	case "u32":
		return uint32(n)
	case "u64":
		return uint64(n)
	case "f":
		f, _ := strconv.ParseFloat(v, 64)
		return f
	case "f32":
		f, _ := strconv.ParseFloat(v, 32)
		return float32(f)
	case "b":
		return v == "1"
	case "T":
		if v == "" {
			return time.Time{}
		}
		return time.Unix(int64(n), 0).UTC()
	case "S":
		return append([]string{}, l...)
	case "I":
		r := []int{}
		for _, x := range l {
			n, _ := strconv.Atoi(x)
			r = append(r, n)
		}
		return r
	case "B":
		r := []bool{}
		for _, x := range l {
			r = append(r, x == "1")
		}
		return r
	case "F":
		r := []float64{}
		for _, x := range l {
			f, _ := strconv.ParseFloat(x, 64)
			r = append(r, f)
		}
		return r
	case "U":
		r := []time.Time{}
		for _, x := range l {
			n, _ := strconv.Atoi(x)
			r = append(r, time.Unix(int64(n), 0).UTC())
		}
		return r
	}
	panic("value " + code)
}

// scalarCode draws a scalar; tag makes it unique when it can be.
func scalarCode(r *vsim.RNG, tag string, n int) string {
	if r.P(3, 5) {
		return "s:" + tag
	}
	switch r.Intn(23) {
	case 0:
		return "s:"
	case 19:
		return fmt.Sprintf("%s:%d", pick(r, "i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64", "f", "f32"), n%3*n%100)
	case 20:
		return pick(r, "T:", "S:", "I:", "B:", "F:", "s:true", "s:0", "s:1.50", "f:-0", "f:NaN", "f:1e300", "i:-1", "f:-2")
	case 13:
		return fmt.Sprintf("F:%d.5,0,-1", n)
	case 14:
		return fmt.Sprintf("i8:%d", n%100)
	case 15:
		return fmt.Sprintf("f32:%d.5", n)
	case 16:
		return "s: " + tag + "\t"
	case 17:
		return fmt.Sprintf("U:%d,1400000000", 1500000000+n)
	case 18:
		return "I:"
	case 1:
		return fmt.Sprintf("i:%d", n)
	case 2:
		return "i:0"
	case 3:
		return fmt.Sprintf("f:%d.5", n)
	case 4:
		return "b:1"
	case 5:
		return "b:0"
	case 6:
		return "n"
	case 7:
		return fmt.Sprintf("T:%d", 1600000000+n)
	case 8:
		return "S:z," + tag + ",,a"
	case 9:
		return fmt.Sprintf("I:%d,2,3", n)
	case 10:
		return fmt.Sprintf("F:%d.25", n)
	case 11:
		return "B:1,0"
	case 12:
		return fmt.Sprintf("U:%d", 1500000000+n)
	}
	return fmt.Sprintf("s:%d", n)
}

// canon is a comparable form of a result.
func canon(v any, names map[any]string) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case time.Time:
		return fmt.Sprintf("time %d", x.UnixNano())
	case []time.Time:
		s := "times"
		for _, t := range x {
			s += fmt.Sprintf(" %d", t.UnixNano())
		}
		return s
	case string:
		return strconv.Quote(x)
	case x2.XDatasetDef:
		if n, ok := names[v]; ok {
			return n
		}
		return "<unknown dataset>"
	case x2.XDatasetCollectionDef:
		if n, ok := names[v]; ok {
			return n
		}
		return "<unknown collection>"
	case x1.XDatasetDef:
		if n, ok := names[v]; ok {
			return n
		}
		return "<unknown dataset>"
	case x1.XDatasetCollectionDef:
		if n, ok := names[v]; ok {
			return n
		}
		return "<unknown collection>"
	}
	return fmt.Sprintf("%T %#v", v, v)
}

func canons(l []any, names map[any]string) string {
	s := make([]string, len(l))
	for i, v := range l {
		s[i] = canon(v, names)
	}
	return strings.Join(s, " | ")
}

// ---------------------------------------------------------------- nested structures

// node describes a nested structure: a scalar, a dataset or a collection.
type node struct {
	V  string  `json:"v,omitempty"` // scalar code
	K  string  `json:"k,omitempty"` // "d" or "c"
	TS bool    `json:"ts,omitempty"`
	W  bool    `json:"w,omitempty"` // a thread-safe dataset around a thread-safe dataset
	U  bool    `json:"u,omitempty"` // supplied by the user: may panic when the bomb is on
	F  []field `json:"f,omitempty"`
	E  []*node `json:"e,omitempty"`
}

type field struct {
	N string `json:"n"`
	V *node  `json:"v"`
}

func parseNode(s string) *node {
	var n node
	if err := json.Unmarshal([]byte(s), &n); err != nil {
		panic(err)
	}
	return &n
}

func (n *node) String() string {
	b, _ := json.Marshal(n)
	return string(b)
}

// names gives every object of a built structure its path.
type names map[any]string

func (n *node) build2(path string, nm names) any {
	switch n.K {
	case "d":
		d := x2.XDataset{}
		for _, f := range n.F {
			d[f.N] = f.V.build2(path+">"+f.N, nm)
		}
		var x x2.XDatasetDef = &d
		if n.U {
			x = &user2{x, userBomb}
		}
		if n.TS {
			x = x2.NewXDatasetTS(x)
			if n.W {
				x = x2.NewXDatasetTS(x)
			}
		}
		nm[x] = path
		return x
	case "c":
		var x x2.XDatasetCollectionDef = &x2.XDatasetCollection{}
		if n.TS {
			x = &x2.XDatasetCollectionTS{}
		}
		for i, e := range n.E {
			x.Push(e.build2(fmt.Sprintf("%s>%d", path, i), nm).(x2.XDatasetDef))
		}
		if n.U {
			x = &userCo2{x, userBomb}
		}
		nm[x] = path
		return x
	}
	return value(n.V)
}

func (n *node) build1(path string, nm names) any {
	switch n.K {
	case "d":
		d := x1.XDataset{}
		for _, f := range n.F {
			d[f.N] = f.V.build1(path+">"+f.N, nm)
		}
		var y x1.XDatasetDef = &d
		if n.U {
			y = &user1{y, userBomb}
		}
		nm[y] = path
		return y
	case "c":
		var x x1.XDatasetCollectionDef = &x1.XDatasetCollection{}
		for i, e := range n.E {
			x.Push(e.build1(fmt.Sprintf("%s>%d", path, i), nm).(x1.XDatasetDef))
		}
		if n.U {
			x = &userCo1{x, userBomb}
		}
		nm[x] = path
		return x
	}
	return value(n.V)
}

// dump2 is the complete contents of a structure, read without its printing methods.
func dump2(v any) string {
	switch x := v.(type) {
	case *x2.XDataset:
		var l []string
		for _, k := range sortedKeys(map[string]interface{}(*x)) {
			l = append(l, k+"="+dump2((*x)[k]))
		}
		return "{" + strings.Join(l, " ") + "}"
	case *x2.XDatasetCollection:
		var l []string
		for _, e := range *x {
			l = append(l, dump2(e))
		}
		return "[" + strings.Join(l, " ") + "]"
	case *x2.XDatasetCollectionTS:
		var l []string
		for i := 0; i < x.Count(); i++ {
			e, _ := x.Get(i)
			l = append(l, dump2(e))
		}
		return "[" + strings.Join(l, " ") + "]"
	case *x2.XDatasetTS:
		// the wrapped dataset is read with its own printing
		return x.GoString()
	case *user2:
		return dump2(x.XDatasetDef)
	case *userCo2:
		return dump2(x.XDatasetCollectionDef)
	case *x2.XLanguage:
		return lstateKey(lang2{x, nil}.model())
	}
	return canon(v, nil)
}

func dump1(v any) string {
	switch x := v.(type) {
	case *x1.XDataset:
		var l []string
		for _, k := range sortedKeys(map[string]interface{}(*x)) {
			l = append(l, k+"="+dump1((*x)[k]))
		}
		return "{" + strings.Join(l, " ") + "}"
	case *x1.XDatasetCollection:
		var l []string
		for _, e := range *x {
			l = append(l, dump1(e))
		}
		return "[" + strings.Join(l, " ") + "]"
	case *user1:
		return dump1(x.XDatasetDef)
	case *userCo1:
		return dump1(x.XDatasetCollectionDef)
	case *x1.XLanguage:
		return lstateKey(lang1{x}.model())
	}
	return canon(v, nil)
}

// genNode draws a structure. Fields are named by kind: f* scalars, d* datasets, c* collections.
func genNode(r *vsim.RNG, depth int, ts int, tag string) *node {
	n := &node{K: "d", TS: r.Intn(100) < ts}
	n.W = n.TS && r.P(1, 8)
	nf := 4
	if depth == 0 && r.P(1, 40) {
		nf = 20 + r.Intn(20)
	}
	if r.P(1, 500) {
		nf = 60 + r.Intn(200)
	}
	for i := 0; i < nf; i++ {
		if r.P(2, 3) {
			n.F = append(n.F, field{fmt.Sprintf("f%d", i), &node{V: scalarCode(r, fmt.Sprintf("%s.f%d", tag, i), r.Intn(50))}})
		}
	}
	if depth > 0 {
		for i := 0; i < 2; i++ {
			if r.P(1, 2) {
				n.F = append(n.F, field{fmt.Sprintf("d%d", i), genNode(r, depth-1, ts, fmt.Sprintf("%s.d%d", tag, i))})
			}
			if r.P(1, 2) {
				n.F = append(n.F, field{fmt.Sprintf("c%d", i), genColl(r, depth-1, ts, fmt.Sprintf("%s.c%d", tag, i))})
			}
		}
	}
	return n
}

func genColl(r *vsim.RNG, depth int, ts int, tag string) *node {
	n := &node{K: "c", TS: r.Intn(100) < ts}
	ne := r.Intn(4)
	if depth == 0 && r.P(1, 20) {
		ne = 4 + r.Intn(12)
		if r.P(1, 20) {
			ne = 20 + r.Intn(200)
		}
	}
	for i := ne; i > 0; i-- {
		n.E = append(n.E, genNode(r, depth, ts, fmt.Sprintf("%s.%d", tag, i)))
	}
	return n
}

// longest gives the length of the longest collection.
func (n *node) longest() int {
	l := len(n.E)
	for _, f := range n.F {
		l = max(l, f.V.longest())
	}
	for _, e := range n.E {
		l = max(l, e.longest())
	}
	return l
}

// deepen puts a structure at the end of a long chain of datasets and collections.
func (n *node) deepen(r *vsim.RNG, ts int, tag string, long bool) *node {
	levels, lists := 3+r.Intn(8), 3
	if long {
		levels, lists = 15+r.Intn(60), 1+r.Intn(20)
	}
	for i := levels; i > 0; i-- {
		up := &node{K: "d", TS: r.Intn(100) < ts}
		up.F = append(up.F, field{"f0", &node{V: fmt.Sprintf("s:%s.%d", tag, i)}})
		if r.P(1, lists) {
			up.F = append(up.F, field{"c0", &node{K: "c", TS: r.Intn(100) < ts, E: []*node{n}}})
		} else {
			up.F = append(up.F, field{"d0", n})
		}
		n = up
	}
	return n
}

// paths lists keys worth reading in a structure, by path, including missing ones.
func (n *node) paths(r *vsim.RNG) string {
	p := ""
	stop := 1
	if r.P(1, 4) {
		// as far down as it goes
		stop = 0
	}
	for step := 0; ; step++ {
		if n.K == "c" {
			i := r.Intn(len(n.E) + 1)
			p += ">" + strconv.Itoa(i)
			if stop > 0 && r.P(1, 10) {
				return p + ">" + pick(r, "x", "-1", "99")
			}
			if i >= len(n.E) || r.P(stop, 4) {
				return p[1:]
			}
			n = n.E[i]
			continue
		}
		if n.K != "d" || len(n.F) == 0 || (step > 0 && r.P(stop, 8)) {
			if p == "" {
				return "f9"
			}
			return p[1:]
		}
		if r.P(1+7*stop, 64) {
			return (p + ">" + pick(r, "f0", "f9", "d0", "c0", "d9>f0", "c9>0>f0"))[1:]
		}
		f := n.F[r.Intn(len(n.F))]
		for i := 0; i < 4 && stop == 0 && f.V.K == ""; i++ {
			f = n.F[r.Intn(len(n.F))]
		}
		p += ">" + f.N
		n = f.V
		if n.K == "" || r.P(stop, 5) {
			return p[1:]
		}
	}
}

// ---------------------------------------------------------------- reading, the same way on all types

type ds2 = x2.XDatasetDef
type co2 = x2.XDatasetCollectionDef

var dsReads = []string{"get", "getds", "getcol", "getstr", "getbool", "getint", "getfloat", "gettime", "getstrs", "getbools", "getints", "getfloats", "gettimes", "str", "gostr"}
var coReads = []string{"count", "at", "data", "datastr", "databool", "dataint", "datafloat", "datatime", "datacol", "str", "gostr"}

func two[A, B any](a A, b B) []any { return []any{a, b} }

func ifNil(v any, isNil bool, ok bool) []any {
	if isNil {
		return []any{nil, ok}
	}
	return []any{v, ok}
}

func readDS2(d ds2, op, key string) []any {
	switch op {
	case "get":
		return two(d.Get(key))
	case "getds":
		v, ok := d.GetDataset(key)
		return ifNil(v, v == nil, ok)
	case "getcol":
		v, ok := d.GetCollection(key)
		return ifNil(v, v == nil, ok)
	case "getstr":
		return two(d.GetString(key))
	case "getbool":
		return two(d.GetBool(key))
	case "getint":
		return two(d.GetInt(key))
	case "getfloat":
		return two(d.GetFloat(key))
	case "gettime":
		return two(d.GetTime(key))
	case "getstrs":
		return two(d.GetStringCollection(key))
	case "getbools":
		return two(d.GetBoolCollection(key))
	case "getints":
		return two(d.GetIntCollection(key))
	case "getfloats":
		return two(d.GetFloatCollection(key))
	case "gettimes":
		return two(d.GetTimeCollection(key))
	case "str":
		return []any{d.String()}
	case "gostr":
		return []any{d.GoString()}
	}
	panic("readDS2 " + op)
}

func readCO2(d co2, op, key string, i int) []any {
	switch op {
	case "count":
		return []any{d.Count()}
	case "at":
		v, ok := d.Get(i)
		return ifNil(v, v == nil, ok)
	case "data":
		return two(d.GetData(key))
	case "datastr":
		return two(d.GetDataString(key))
	case "databool":
		return two(d.GetDataBool(key))
	case "dataint":
		return two(d.GetDataInt(key))
	case "datafloat":
		return two(d.GetDataFloat(key))
	case "datatime":
		return two(d.GetDataTime(key))
	case "datacol":
		v, ok := d.GetCollection(key)
		return ifNil(v, v == nil, ok)
	case "str":
		return []any{afterBracket(d.String())}
	case "gostr":
		return []any{afterBracket(d.GoString())}
	}
	panic("readCO2 " + op)
}

func readDS1(d x1.XDatasetDef, op, key string) []any {
	switch op {
	case "get":
		return two(d.Get(key))
	case "getds":
		v, ok := d.GetDataset(key)
		return ifNil(v, v == nil, ok)
	case "getcol":
		v, ok := d.GetCollection(key)
		return ifNil(v, v == nil, ok)
	case "getstr":
		return two(d.GetString(key))
	case "getbool":
		return two(d.GetBool(key))
	case "getint":
		return two(d.GetInt(key))
	case "getfloat":
		return two(d.GetFloat(key))
	case "gettime":
		return two(d.GetTime(key))
	case "getstrs":
		return two(d.GetStringCollection(key))
	case "getbools":
		return two(d.GetBoolCollection(key))
	case "getints":
		return two(d.GetIntCollection(key))
	case "getfloats":
		return two(d.GetFloatCollection(key))
	case "gettimes":
		return two(d.GetTimeCollection(key))
	case "str":
		return []any{d.String()}
	case "gostr":
		return []any{d.GoString()}
	}
	panic("readDS1 " + op)
}

func readCO1(d x1.XDatasetCollectionDef, op, key string, i int) []any {
	switch op {
	case "count":
		return []any{d.Count()}
	case "at":
		v, ok := d.Get(i)
		return ifNil(v, v == nil, ok)
	case "data":
		return two(d.GetData(key))
	case "datastr":
		return two(d.GetDataString(key))
	case "databool":
		return two(d.GetDataBool(key))
	case "dataint":
		return two(d.GetDataInt(key))
	case "datafloat":
		return two(d.GetDataFloat(key))
	case "datatime":
		return two(d.GetDataTime(key))
	case "datacol":
		v, ok := d.GetCollection(key)
		return ifNil(v, v == nil, ok)
	case "str":
		return []any{afterBracket(d.String())}
	case "gostr":
		return []any{afterBracket(d.GoString())}
	}
	panic("readCO1 " + op)
}

// afterBracket drops the type name of a printed collection.
func afterBracket(s string) string {
	if i := strings.IndexByte(s, '['); i >= 0 {
		return s[i:]
	}
	return s
}
