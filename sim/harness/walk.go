package main

import (
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"vsim"
)

// walker finds what an object still refers to.
type walker struct {
	vals  map[*Val]bool
	keys  map[string]int
	nkeys int
	seen  map[wref]bool
}

type wref struct {
	p unsafe.Pointer
	t reflect.Type
}

func (w *walker) keyList() []string {
	var l []string
	for k := range w.keys {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// reach walks over an object and the package variables.
func reach(root any) *walker {
	w := &walker{vals: map[*Val]bool{}, keys: map[string]int{}, seen: map[wref]bool{}}
	w.walk(reflect.ValueOf(root))
	for _, v := range vsim.PackageVars() {
		w.walk(reflect.ValueOf(v))
	}
	return w
}

func isKey(s string) bool {
	return len(s) >= 2 && len(s) <= 4 && s[0] == 'k' && strings.Trim(s[1:], "0123456789") == ""
}

func (w *walker) walk(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	switch p := v.Type().PkgPath(); p {
	case "vsim":
		if n := v.Type().Name(); n != "Map" && !strings.HasPrefix(n, "Atomic") {
			return
		}
	case "regexp", "time", "log", "os":
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf(&Val{}) {
			w.vals[(*Val)(v.UnsafePointer())] = true
			return
		}
		r := wref{v.UnsafePointer(), v.Type()}
		if w.seen[r] {
			return
		}
		w.seen[r] = true
		w.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem())
		}
	case reflect.Map:
		r := wref{v.UnsafePointer(), v.Type()}
		if v.IsNil() || w.seen[r] {
			return
		}
		w.seen[r] = true
		it := v.MapRange()
		for it.Next() {
			w.walk(it.Key())
			w.walk(it.Value())
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := v.Len()
		if v.Type().Elem().Kind() != reflect.String {
			v = v.Slice3(0, v.Cap(), v.Cap())
			n = v.Len()
		}
		for i := 0; i < n; i++ {
			w.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	case reflect.String:
		if s := v.String(); isKey(s) {
			w.keys[s]++
			w.nkeys++
		}
	}
}
