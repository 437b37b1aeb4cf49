package vsim

import (
	"fmt"
	"reflect"
	"sort"
)

// Keys that have no order of their own (pointers, interfaces, structures) are numbered when they are first
// stored in a map, so that their order does not depend on addresses.
var keyNum = map[any]int{}

func noteKey[K comparable](k K) {
	switch any(k).(type) {
	case string, int:
		return
	}
	switch reflect.TypeFor[K]().Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Array, reflect.Chan, reflect.UnsafePointer:
		if keyNum[k] == 0 {
			keyNum[k] = len(keyNum) + 1
		}
	}
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	}
	sort.SliceStable(ks, func(i, j int) bool {
		a, b := keyNum[ks[i]], keyNum[ks[j]]
		if a != b {
			return a < b
		}
		return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j])
	})
}
