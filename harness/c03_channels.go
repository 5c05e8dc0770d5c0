package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils/ta"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// source returns a channel that delivers vals and is then closed: from a
// goroutine without a buffer, already filled, or from a goroutine through a
// buffer of one.
func source(kind int, vals []float64) <-chan float64 {
	if kind == 1 {
		c := make(chan float64, len(vals))
		for i := 0; i < len(vals); i++ {
			c <- vals[i]
		}
		close(c)
		return c
	}
	c := make(chan float64, kind/2)
	go func() {
		for i := 0; i < len(vals); i++ {
			sym.Jitter()
			c <- vals[i]
		}
		sym.Jitter()
		close(c)
	}()
	return c
}

// read takes everything from c until it is closed.
func read(c <-chan float64) []float64 {
	var r []float64
	for {
		sym.Jitter()
		v, ok := <-c
		if !ok {
			return r
		}
		r = append(r, v)
	}
}

// readAll reads several channels at the same time, one goroutine each.
func readAll(cs []<-chan float64) [][]float64 {
	out := make([][]float64, len(cs))
	done := make(chan int, len(cs))
	for k := 1; k < len(cs); k++ {
		go func(k int) {
			out[k] = read(cs[k])
			done <- k
		}(k)
	}
	if len(cs) > 0 {
		out[0] = read(cs[0])
	}
	for k := 1; k < len(cs); k++ {
		<-done
	}
	return out
}

func same(got, want []float64, what string) {
	sym.Assert(len(got) == len(want), what+": neither lost nor added")
	if len(got) != len(want) {
		return
	}
	for i := 0; i < len(want); i++ {
		sym.AssertEq(got[i], want[i], what+": order and values")
	}
}

func over() { sym.Assert(sym.Settle() == 0, "no goroutine is left behind") }

// C03_SliceChan_Conc: a slice sent through a channel arrives as it was.
func C03_SliceChan_Conc() {
	n := sym.Range("n", 0, sym.Tier(5, 9))
	x := floats("x", n)
	switch sym.Range("reader", 0, 2) {
	case 0:
		same(helpertools.Chan2Slice(helpertools.Slice2Chan(dup(x))), x, "Slice2Chan then Chan2Slice")
	case 1:
		same(read(helpertools.Slice2Chan(dup(x))), x, "Slice2Chan")
	default:
		same(helpertools.Chan2Slice(source(sym.Range("source", 0, 2), x)), x, "Chan2Slice")
	}
	over()
}

// C03_Drain_Conc: Drain empties a channel and returns once it is closed.
func C03_Drain_Conc() {
	n := sym.Range("n", 0, sym.Tier(5, 9))
	c := source(sym.Range("source", 0, 2), floats("x", n))
	helpertools.Drain(c)
	v, ok := <-c
	sym.Assert(!ok && v == 0, "nothing is left after Drain")
	over()
}

// C03_Apply_Conc: Apply maps every value, in order.
func C03_Apply_Conc() {
	n := sym.Range("n", 0, sym.Tier(5, 8))
	x := floats("x", n)
	got := read(helpertools.Apply(source(sym.Range("source", 0, 2), x), func(v float64) float64 { return 2*v + 1 }))
	want := dup(x)
	for i := 0; i < n; i++ {
		want[i] = 2*x[i] + 1
	}
	same(got, want, "Apply")
	over()
}

// C03_ApplyChain_Conc: stages composed one behind the other.
func C03_ApplyChain_Conc() {
	n := sym.Range("n", 0, sym.Tier(3, 5))
	x := floats("x", n)
	a := helpertools.Apply(source(sym.Range("source", 0, 2), x), func(v float64) float64 { return v + 1 })
	got := read(helpertools.Apply(a, func(v float64) float64 { return v * 3 }))
	want := dup(x)
	for i := 0; i < n; i++ {
		want[i] = (x[i] + 1) * 3
	}
	same(got, want, "two Applies")
	over()
}

// C03_Duplicate_Conc: every copy gets every value, in order, when the copies
// are read at the same time.
func C03_Duplicate_Conc() {
	n := sym.Range("n", 0, sym.Tier(3, 5))
	k := sym.Range("copies", 1, 3)
	x := floats("x", n)
	cs := helpertools.Duplicate(source(sym.Range("source", 0, 2), x), k)
	sym.Assert(len(cs) == k, "as many copies as asked for")
	if len(cs) != k {
		return
	}
	got := readAll(cs)
	for i := 0; i < k; i++ {
		same(got[i], x, "Duplicate")
	}
	over()
}

// C03_DuplicateZip_Conc: the copies read in turn by one goroutine.
func C03_DuplicateZip_Conc() {
	n := sym.Range("n", 0, sym.Tier(4, 7))
	k := sym.Range("copies", 1, 3)
	x := floats("x", n)
	cs := helpertools.Duplicate(source(sym.Range("source", 0, 2), x), k)
	if len(cs) != k {
		return
	}
	for i := 0; i < n; i++ {
		for c := 0; c < k; c++ {
			v, ok := <-cs[c]
			sym.Assert(ok, "Duplicate: no copy ends early")
			sym.AssertEq(v, x[i], "Duplicate: order and values")
		}
	}
	for c := k - 1; c >= 0; c-- {
		_, ok := <-cs[c]
		sym.Assert(!ok, "Duplicate: every copy ends")
	}
	over()
}

// C03_Operate_Conc: pairs are combined in order up to the shorter input, the
// rest of the longer one is taken off so that its producer can end.
func C03_Operate_Conc() {
	n := sym.Range("n", 0, sym.Tier(3, 5))
	m := sym.Range("m", 0, sym.Tier(3, 5))
	x, y := floats("x", n), floats("y", m)
	a := source(sym.Range("sourceA", 0, 2), x)
	b := source(sym.Range("sourceB", 0, 2), y)
	got := read(helpertools.Operate(a, b, func(p, q float64) float64 { return p - 2*q }))
	short := n
	if m < n {
		short = m
	}
	want := make([]float64, short)
	for i := 0; i < short; i++ {
		want[i] = x[i] - 2*y[i]
	}
	same(got, want, "Operate")
	sym.Settle()
	_, ok := <-a
	sym.Assert(!ok, "Operate takes off the rest of its first input")
	_, ok = <-b
	sym.Assert(!ok, "Operate takes off the rest of its second input")
	over()
}

// C03_Shift_Conc: count times the filler, then the input.
func C03_Shift_Conc() {
	n := sym.Range("n", 0, sym.Tier(4, 7))
	count := sym.Range("count", 0, 4)
	x := floats("x", n)
	fill := sym.Float("fill", 0)
	got := read(helpertools.Shift(source(sym.Range("source", 0, 2), x), count, fill))
	var want []float64
	for i := 0; i < count; i++ {
		want = append(want, fill)
	}
	same(got, append(want, x...), "Shift")
	over()
}

// C03_Skip_Conc: the input without its first count values (all of them when
// there are fewer).
func C03_Skip_Conc() {
	n := sym.Range("n", 0, sym.Tier(4, 7))
	count := sym.Range("count", 0, 5)
	x := floats("x", n)
	got := read(helpertools.Skip(source(sym.Range("source", 0, 2), x), count))
	if count > n {
		count = n
	}
	same(got, x[count:], "Skip")
	over()
}

// C03_Pipe_Conc: everything is handed on and the target is closed.
func C03_Pipe_Conc() {
	n := sym.Range("n", 0, sym.Tier(5, 8))
	x := floats("x", n)
	t := make(chan float64, sym.Range("buffer", 0, 2))
	go helpertools.Pipe(source(sym.Range("source", 0, 2), x), t)
	same(read(t), x, "Pipe")
	over()
}

// C03_CheckEquals_Conc: nil exactly for pairs of equal channels.
func C03_CheckEquals_Conc() {
	pairs := sym.Range("pairs", 1, 2)
	equal := true
	var cs []<-chan float64
	for p := 0; p < pairs; p++ {
		n := sym.Range("n", 0, 2)
		m := sym.Range("m", 0, 2)
		x, y := make([]float64, n), make([]float64, m)
		for i := 0; i < n; i++ {
			x[i] = sym.Float("x", 10*p+i)
		}
		for i := 0; i < m; i++ {
			y[i] = sym.Float("y", 10*p+i)
		}
		if n != m {
			equal = false
		}
		for i := 0; i < n && i < m; i++ {
			if x[i] != y[i] {
				equal = false
			}
		}
		cs = append(cs, source(p%2, x), source(1, y))
	}
	sym.Assert((helpertools.CheckEquals(cs...) == nil) == equal, "CheckEquals says nil exactly for equal pairs")
	if equal {
		over()
	}
}

// C03_CheckOdd_Conc: channels that are not in pairs are refused.
func C03_CheckOdd_Conc() {
	a, b, c := source(1, nil), source(1, nil), source(1, nil)
	sym.Assert(helpertools.CheckEquals(a) != nil && helpertools.CheckEquals(a, b, c) != nil, "an odd number of channels is refused")
	sym.Assert(helpertools.CheckEquals[float64]() == nil, "no channels are equal")
}

// C03_RoundDigits_Conc: every value is rounded to d decimals, in order.
func C03_RoundDigits_Conc() {
	n := sym.Range("n", 0, sym.Tier(3, 5))
	d := sym.Range("digits", 0, 3)
	x := floats("x", n)
	got := read(helpertools.RoundDigits(source(sym.Range("source", 0, 2), x), d))
	sym.Assert(len(got) == n, "RoundDigits: neither lost nor added")
	if len(got) != n {
		return
	}
	f := []float64{1, 10, 100, 1000}[d]
	for i := 0; i < n; i++ {
		sym.Assume(math.Abs(x[i]) < 1e9)
		sym.AssertLe(math.Abs(got[i]-x[i]), 0.5/f+1e-6, "RoundDigits: within half a unit of the last digit")
	}
	over()
}

// C04_SmaT_Conc: the i-th output is the sum of the last period inputs divided
// by period (values before the first count as zero), whatever the schedule.
func C04_SmaT_Conc() {
	n := sym.Range("n", 0, sym.Tier(4, 6))
	p := sym.Range("period", 1, sym.Tier(3, 5))
	x := floats("x", n)
	got := read(ta.SmaT(p, source(sym.Range("source", 0, 2), x)))
	want := make([]float64, n)
	for i := 0; i < n; i++ {
		s := 0.0
		for k := 0; k < p && k <= i; k++ {
			s += x[i-k]
		}
		want[i] = s / float64(p)
	}
	same(got, want, "SmaT")
	over()
}

// C03_Long_Conc: longer inputs and larger counts, one pass of each helper.
func C03_Long_Conc() {
	n := sym.Tier(24, 40)
	x := floats("x", n)
	kind := sym.Range("source", 0, 2)
	switch sym.Range("helper", 0, 6) {
	case 0:
		same(helpertools.Chan2Slice(helpertools.Slice2Chan(dup(x))), x, "Slice2Chan then Chan2Slice")
	case 1:
		got := read(helpertools.Shift(source(kind, x[:2]), 70, 5))
		sym.Assert(len(got) == 72 && got[0] == 5 && got[69] == 5 && got[70] == x[0] && got[71] == x[1], "Shift by 70")
	case 2:
		same(read(helpertools.Skip(source(kind, x), n-1)), x[n-1:], "Skip")
	case 3:
		same(read(helpertools.Apply(source(kind, x), func(v float64) float64 { return v })), x, "Apply")
	case 4:
		cs := helpertools.Duplicate(source(kind, x[:6]), 5)
		for i := 0; i < 6; i++ {
			for c := 0; c < len(cs); c++ {
				sym.Assert(<-cs[c] == x[i], "Duplicate: order and values")
			}
		}
		for c := 0; c < len(cs); c++ {
			_, ok := <-cs[c]
			sym.Assert(!ok, "Duplicate: every copy ends")
		}
	case 5:
		got := read(helpertools.Operate(source(1, x), source(kind, x), func(p, q float64) float64 { return p + q }))
		sym.Assert(len(got) == n && got[n-1] == 2*x[n-1], "Operate")
	default:
		helpertools.Drain(source(kind, x))
	}
	over()
}

// C03_Ints_Conc: the helpers on whole numbers and on text.
func C03_Ints_Conc() {
	n := sym.Range("n", 0, 3)
	x := make([]int64, n)
	for i := 0; i < n; i++ {
		x[i] = sym.Int("x", i, -1<<40, 1<<40)
	}
	pairs := helpertools.Operate(helpertools.Slice2Chan(x), helpertools.Slice2Chan([]string{"a", "b", "a"}), func(v int64, s string) int64 {
		if s == "b" {
			return -v
		}
		return v
	})
	got := helpertools.Chan2Slice(helpertools.Apply(helpertools.Shift(pairs, 1, 7), func(v int64) int64 { return v + 1 }))
	sym.Assert(len(got) == n+1 && got[0] == 8, "one value more, the filler first")
	if len(got) != n+1 {
		return
	}
	for i := 0; i < n; i++ {
		want := x[i] + 1
		if i == 1 {
			want = 1 - x[i]
		}
		sym.Assert(got[i+1] == want, "order and values")
	}
	over()
}

// C04_Ints_Conc: on whole numbers the quotient is the integer one.
func C04_Ints_Conc() {
	n := sym.Range("n", 0, sym.Tier(4, 5))
	p := sym.Range("period", 1, 3)
	x := make([]int64, n)
	for i := 0; i < n; i++ {
		x[i] = sym.Int("x", i, -1<<40, 1<<40)
	}
	got := helpertools.Chan2Slice(ta.SmaT(p, helpertools.Slice2Chan(x)))
	sym.Assert(len(got) == n, "SmaT: neither lost nor added")
	if len(got) != n {
		return
	}
	for i := 0; i < n; i++ {
		s := int64(0)
		for k := 0; k < p && k <= i; k++ {
			s += x[i-k]
		}
		sym.Assert(got[i] == s/int64(p), "SmaT of whole numbers")
	}
	over()
}

// C04_Long_Conc: a longer series than any period.
func C04_Long_Conc() {
	n := sym.Tier(14, 24)
	p := []int{1, 5, 9, 30}[sym.Range("period", 0, 3)]
	x := floats("x", n)
	got := read(ta.SmaT(p, source(1, x)))
	want := make([]float64, n)
	for i := 0; i < n; i++ {
		s := 0.0
		for k := 0; k < p && k <= i; k++ {
			s += x[i-k]
		}
		want[i] = s / float64(p)
	}
	same(got, want, "SmaT")
	over()
}
