package zzverif

import (
	"github.com/idoall/stockindicator/container"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/zzverif/sym"
)

func bag(vals []float64, in []bool) (lo, hi float64, any bool) {
	for i := 0; i < len(vals); i++ {
		if !in[i] {
			continue
		}
		if !any {
			lo, hi, any = vals[i], vals[i], true
		} else {
			lo, hi = fmin(lo, vals[i]), fmax(hi, vals[i])
		}
	}
	return
}

func checkExtremes(t *bst.Tree, vals []float64, in []bool) {
	lo, hi, any := bag(vals, in)
	if !any {
		sym.Assert(t.Min() == nil, "Min of an empty tree is nil")
		sym.Assert(t.Max() == nil, "Max of an empty tree is nil")
		return
	}
	mn, ok := t.Min().(float64)
	sym.Assert(ok, "Min of a non-empty tree is a value")
	mx, ok2 := t.Max().(float64)
	sym.Assert(ok2, "Max of a non-empty tree is a value")
	sym.Assert(mn == lo, "Min is the smallest value held")
	sym.Assert(mx == hi, "Max is the largest value held")
}

// C01_InsertRemove: n inserts of arbitrary values followed by m removals of
// arbitrary values; after every step the tree is the multiset.
func C01_InsertRemove() {
	n := sym.Range("inserts", 0, sym.Tier(4, 5))
	m := sym.Range("removes", 0, sym.Tier(2, 5))
	vals := floats("v", n)
	in := make([]bool, n)
	t := bst.New()
	checkExtremes(t, vals, in)
	for i := 0; i < n; i++ {
		t.Insert(vals[i])
		in[i] = true
		checkExtremes(t, vals, in)
	}
	for k := 0; k < m; k++ {
		x := sym.Float("x", k)
		want := false
		for i := 0; i < n; i++ {
			if in[i] && !want && vals[i] == x {
				in[i] = false
				want = true
			}
		}
		got := t.Remove(x)
		sym.Assert(got == want, "Remove reports whether the value was held")
		checkExtremes(t, vals, in)
	}
}

// C01_Mixed: every interleaving of inserts and removes of the given length.
func C01_Mixed() {
	steps := sym.Tier(4, 6)
	t := bst.New()
	vals := make([]float64, steps)
	in := make([]bool, steps)
	for k := 0; k < steps; k++ {
		x := sym.Float("x", k)
		op := sym.Range("op", 0, 1)
		if op == 0 {
			t.Insert(x)
			vals[k] = x
			in[k] = true
		} else {
			want := false
			for i := 0; i < k; i++ {
				if in[i] && !want && vals[i] == x {
					in[i] = false
					want = true
				}
			}
			sym.Assert(t.Remove(x) == want, "Remove reports whether the value was held")
		}
		checkExtremes(t, vals, in)
	}
}

// C01_Drain: removing a tree's content in sorted order returns every value.
func C01_Drain() {
	n := sym.Range("n", 1, sym.Tier(4, 6))
	vals := floats("v", n)
	t := bst.New()
	sym.Assert(t.Inserts(vals) == t, "Inserts returns the tree")
	prev := 0.0
	s := 0.0
	for i := 0; i < n; i++ {
		m, ok := t.Min().(float64)
		sym.Assert(ok, "a value is left")
		if i > 0 {
			sym.AssertLe(prev, m, "values leave in ascending order")
		}
		prev = m
		s += m
		sym.Assert(t.Remove(m), "the minimum can be removed")
	}
	sym.AssertEq(s, sum(vals), "nothing is lost or invented")
	sym.Assert(t.Min() == nil, "the tree is empty after removing everything")
}

// C01_Int64: the same with int64 keys.
func C01_Int64() {
	n := sym.Range("n", 1, sym.Tier(3, 4))
	t := bst.New()
	in := make([]bool, n)
	v := make([]int64, n)
	for i := 0; i < n; i++ {
		v[i] = sym.Int("v", i, -1<<63, 1<<63-1)
		t.Insert(v[i])
		in[i] = true
	}
	for k := 0; k < 2; k++ {
		x := sym.Int("x", k, -1<<63, 1<<63-1)
		want := false
		for i := 0; i < n; i++ {
			if in[i] && !want && v[i] == x {
				in[i] = false
				want = true
			}
		}
		sym.Assert(t.Remove(x) == want, "Remove reports whether the value was held")
		any := false
		var lo, hi int64
		for i := 0; i < n; i++ {
			if in[i] {
				if !any || v[i] < lo {
					lo = v[i]
				}
				if !any || v[i] > hi {
					hi = v[i]
				}
				any = true
			}
		}
		if any {
			mn, ok := t.Min().(int64)
			sym.Assert(ok, "Min is an int64")
			mx, ok2 := t.Max().(int64)
			sym.Assert(ok2, "Max is an int64")
			sym.Assert(mn == lo, "Min is the smallest value held")
			sym.Assert(mx == hi, "Max is the largest value held")
		} else {
			sym.Assert(t.Min() == nil, "Min of an empty tree is nil")
		}
	}
}

type rev struct{ k int64 }

func (a rev) Compare(b container.Comparable) int {
	x := b.(rev)
	if a.k > x.k {
		return -1
	}
	if a.k < x.k {
		return 1
	}
	return 0
}

// C01_Comparable: user-defined order (reversed) is respected.
func C01_Comparable() {
	n := sym.Range("n", 1, 3)
	t := bst.New()
	var lo, hi int64
	for i := 0; i < n; i++ {
		k := sym.Int("k", i, -1000, 1000)
		t.Insert(rev{k})
		if i == 0 || k < lo {
			lo = k
		}
		if i == 0 || k > hi {
			hi = k
		}
	}
	mn, ok := t.Min().(rev)
	sym.Assert(ok, "Min has the inserted type")
	mx, ok2 := t.Max().(rev)
	sym.Assert(ok2, "Max has the inserted type")
	sym.Assert(mn.k == hi, "Min follows the user-defined order")
	sym.Assert(mx.k == lo, "Max follows the user-defined order")
}

// C01_Compare: the order is the numeric order.
func C01_Compare() {
	a, b := sym.Float("a", 0), sym.Float("b", 0)
	r := container.Compare(a, b)
	sym.Assert((r == -1) == (a < b), "-1 exactly when less")
	sym.Assert((r == 1) == (a > b), "1 exactly when greater")
	sym.Assert((r == 0) == (a == b), "0 exactly when equal")
	sym.Assert(container.Compare(b, a) == -r, "antisymmetric")
	x, y := sym.Int("x", 0, -1<<63, 1<<63-1), sym.Int("y", 0, -1<<63, 1<<63-1)
	q := container.Compare(x, y)
	sym.Assert((q == -1) == (x < y), "-1 exactly when less (int64)")
	sym.Assert((q == 1) == (x > y), "1 exactly when greater (int64)")
	sym.Assert((q == 0) == (x == y), "0 exactly when equal (int64)")
}

// C01_Compare_FP: the same bit-precisely, for every float64 that is not NaN.
func C01_Compare_FP() {
	a, b := sym.Float("a", 0), sym.Float("b", 0)
	sym.Assume(a == a)
	sym.Assume(b == b)
	r := container.Compare(a, b)
	sym.Assert((r == -1) == (a < b), "-1 exactly when less")
	sym.Assert((r == 1) == (a > b), "1 exactly when greater")
	sym.Assert((r == 0) == (a == b), "0 exactly when equal")
}

// C01_Shapes_Paths: every tree of up to the given number of different values,
// in every order of insertion, loses exactly the one value removed.
func C01_Shapes_Paths() {
	n := sym.Range("n", 3, sym.Tier(6, 7))
	k := sym.Range("removed", 0, n-1)
	vals := floats("v", n)
	t := bst.New()
	for i := 0; i < n; i++ {
		for q := 0; q < i; q++ {
			sym.Assume(vals[i] != vals[q])
		}
		t.Insert(vals[i])
	}
	sym.Assert(t.Remove(vals[k]), "a value held can be removed")
	for i := 0; i < n; i++ {
		if i != k {
			sym.Assert(t.Remove(vals[i]), "the other values are still held")
		}
	}
	sym.Assert(t.Min() == nil && t.Max() == nil, "nothing else is held")
}

// C01_Ties_Paths: the same with equal values, the removed ones anything.
func C01_Ties_Paths() {
	n := sym.Range("n", 1, sym.Tier(5, 6))
	vals := floats("v", n)
	t := bst.New()
	in := make([]bool, n)
	for i := 0; i < n; i++ {
		t.Insert(vals[i])
		in[i] = true
	}
	for k := 0; k < 1; k++ {
		x := sym.Float("x", k)
		at := -1
		for i := 0; i < n; i++ {
			if at < 0 && in[i] && vals[i] == x {
				at = i
			}
		}
		if at >= 0 {
			in[at] = false
		}
		sym.Assert(t.Remove(x) == (at >= 0), "Remove reports whether the value was held")
		checkExtremes(t, vals, in)
	}
	for i := 0; i < n; i++ {
		if in[i] {
			sym.Assert(t.Remove(vals[i]), "what is held can be removed")
		}
	}
	sym.Assert(t.Min() == nil && t.Max() == nil, "nothing else is held")
}
