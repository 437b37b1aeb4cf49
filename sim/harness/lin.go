package main

import "time"

// patience is the longest time one search may take.
const patience = 10 * time.Second

// item is one atomic step of a history: it takes effect at one instant in [inv, ret], after its predecessors.
type item struct {
	inv, ret int64
	preds    []int
	apply    func(st any) []any // the possible states after the step, none if the step is impossible
	desc     string
}

type bits [3]uint64

func (b bits) has(i int) bool { return b[i>>6]&(1<<uint(i&63)) != 0 }
func (b bits) with(i int) bits {
	b[i>>6] |= 1 << uint(i&63)
	return b
}

const maxItems = 190

// linearize tells if the items can be ordered so that every step is possible, starting from one state.
// incon: the search was given up. best is the longest order found, for reports.
func linearize(items []item, init any, key func(any) string, budget int) (ok, incon bool, best []int) {
	lo, hi := 0, len(items)
	if hi > maxItems {
		// what comes before and after everything else has only one order
		lo, hi = alone(items)
	}
	n := hi - lo
	if n > maxItems {
		return true, true, nil
	}
	sts := []any{init}
	if lo > 0 {
		bad, l, giveUp := inOrder(items[:lo], init, key)
		if giveUp {
			return true, true, nil
		}
		for i := 0; i < lo && (bad < 0 || i < bad); i++ {
			best = append(best, i)
		}
		if bad >= 0 {
			return false, false, best
		}
		sts = l
	}
	mid, tail := items[lo:hi], items[hi:]
	type mk struct {
		mask bits
		key  string
	}
	seen := map[mk]bool{}
	path := append([]int(nil), best...)
	nodes := 0
	start := time.Now()
	var rec func(mask bits, left int, st any) bool
	rec = func(mask bits, left int, st any) bool {
		if left == 0 {
			if len(tail) == 0 {
				return true
			}
			bad, _, giveUp := inOrder(tail, st, key)
			if giveUp {
				incon = true
			}
			if bad >= 0 && len(path)+bad > len(best) {
				best = append([]int(nil), path...)
				for i := 0; i < bad; i++ {
					best = append(best, hi+i)
				}
			}
			return bad < 0
		}
		nodes++
		if nodes > budget || (nodes%64 == 0 && time.Since(start) > patience) {
			incon = true
			return true
		}
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if !mask.has(i) && mid[i].ret < minRet {
				minRet = mid[i].ret
			}
		}
	next:
		for i := 0; i < n; i++ {
			it := &mid[i]
			if mask.has(i) || it.inv > minRet {
				continue
			}
			for _, p := range it.preds {
				if p >= lo && !mask.has(p-lo) {
					continue next
				}
			}
			m2 := mask.with(i)
			for _, ns := range it.apply(st) {
				k := mk{m2, key(ns)}
				if seen[k] {
					continue
				}
				seen[k] = true
				path = append(path, lo+i)
				if len(path) > len(best) {
					best = append([]int(nil), path...)
				}
				if rec(m2, left-1, ns) {
					return true
				}
				path = path[:len(path)-1]
			}
		}
		return false
	}
	for _, st := range sts {
		if rec(bits{}, n, st) {
			return true, incon, best
		}
	}
	return false, incon, best
}

// alone finds the items at the start and at the end that overlap with no other one.
func alone(items []item) (lo, hi int) {
	n := len(items)
	first := make([]int64, n+1) // of what comes later
	first[n] = 1 << 62
	for i := n - 1; i >= 0; i-- {
		first[i] = min(first[i+1], items[i].inv)
	}
	for lo < n && items[lo].ret < first[lo+1] {
		lo++
	}
	last := make([]int64, n+1) // of what came before
	last[0] = -1 << 62
	for i := 0; i < n; i++ {
		last[i+1] = max(last[i], items[i].ret)
	}
	for hi = n; hi > lo && items[hi-1].inv > last[hi-1] && items[hi-1].ret < first[hi]; {
		hi--
	}
	return lo, hi
}

// inOrder applies the items one after the other, keeping every possible state.
// It returns the index of the first impossible step, or -1. incon: there were too many states to follow.
func inOrder(items []item, init any, key func(any) string) (bad int, sts []any, incon bool) {
	cur := []any{init}
	work, start := 0, time.Now()
	for i := range items {
		if work += len(cur); work > 4*len(items)+20000 || (len(cur) > 1 && time.Since(start) > patience) {
			return -1, cur, true
		}
		var next []any
		seen := map[string]bool{}
		for _, st := range cur {
			for _, ns := range items[i].apply(st) {
				if k := key(ns); !seen[k] {
					seen[k] = true
					next = append(next, ns)
				}
			}
		}
		if len(next) == 0 {
			return i, cur, false
		}
		cur = next
	}
	return -1, cur, false
}
