package zzverif

import (
	"github.com/idoall/stockindicator/utils/ta"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// C05_MaxMin: ta.Max / ta.Min are the extremes of the trailing window.
func C05_MaxMin() {
	n := sym.Range("n", 0, sym.Tier(4, 6))
	p := sym.Range("period", 1, sym.Tier(4, 5))
	v := floats("v", n)
	keep := dup(v)
	mx := ta.Max(p, v)
	mn := ta.Min(p, v)
	sym.Assert(len(mx) == n, "Max keeps the length")
	sym.Assert(len(mn) == n, "Min keeps the length")
	for i := 0; i < n; i++ {
		sym.AssertEq(mx[i], maxOf(win(keep, i, p)), "Max is the window's largest value")
		sym.AssertEq(mn[i], minOf(win(keep, i, p)), "Min is the window's smallest value")
		sym.AssertEq(v[i], keep[i], "the input is not modified")
	}
	observe("mx", mx)
	observe("mn", mn)
}

// C05_MaxMinLong_Paths: default-size windows with two arbitrary values among fixed ones.
func C05_MaxMinLong_Paths() {
	n := 24
	p := sym.Range("period/2", 3, sym.Tier(4, 7)) * 2
	a := sym.Range("shape", sym.Tier(2, 0), 3)
	v := make([]float64, n)
	for i := 0; i < n; i++ {
		switch a {
		case 0:
			v[i] = float64(i)
		case 1:
			v[i] = float64(-i)
		case 2:
			v[i] = float64((i * 7) % 5)
		default:
			v[i] = float64((i * 5) % 11)
		}
	}
	v[7] = sym.Float("v", 7)
	v[12] = sym.Float("v", 12)
	mx := ta.Max(p, v)
	mn := ta.Min(p, v)
	for i := 0; i < n; i++ {
		sym.AssertEq(mx[i], maxOf(win(v, i, p)), "Max is the window's largest value")
		sym.AssertEq(mn[i], minOf(win(v, i, p)), "Min is the window's smallest value")
	}
}

// C05_HighestLowest: the extremes of the last k values.
func C05_HighestLowest() {
	n := sym.Range("n", 1, sym.Tier(6, 8))
	k := sym.Range("k", 1, sym.Tier(7, 9))
	v := floats("v", n)
	sym.AssertEq(ta.Highest(v, k), maxOf(win(v, n-1, k)), "Highest is the largest of the last values")
	sym.AssertEq(ta.Lowest(v, k), minOf(win(v, n-1, k)), "Lowest is the smallest of the last values")
}

// C06_MA: the plain moving average; 0 until the window is full.
func C06_MA() {
	n := sym.Range("n", 0, sym.Tier(7, 12))
	p := sym.Range("period", 0, sym.Tier(5, 9))
	v := floats("v", n)
	r := ta.MA(v, p)
	sym.Assert(len(r) == n, "MA keeps the length")
	for i := 0; i < n; i++ {
		if p < 1 || i < p-1 {
			sym.AssertEq(r[i], 0, "no average before the window is full")
		} else {
			sym.AssertEq(r[i], mean(win(v, i, p)), "MA is the mean of the window")
		}
	}
	observe("r", r)
}

// C06_Sma: the simple moving average over the available part of the window.
func C06_Sma() {
	n := sym.Range("n", 0, sym.Tier(7, 12))
	p := sym.Range("period", 1, sym.Tier(5, 9))
	v := floats("v", n)
	r := ta.Sma(p, v)
	w := orSma(p, v)
	s := ta.Sum(p, v)
	sym.Assert(len(r) == n, "Sma keeps the length")
	sym.Assert(len(s) == n, "Sum keeps the length")
	for i := 0; i < n; i++ {
		sym.AssertEq(r[i], w[i], "Sma is the mean of the window")
		sym.AssertEq(s[i], sum(win(v, i, p)), "Sum is the total of the window")
	}
	sym.AssertEq(ta.Cum(v), sum(v), "Cum is the total")
	if n > 0 {
		sym.AssertEq(ta.Mean(v), sum(v)/float64(n), "Mean is the total divided by the count")
	}
	observe("r", r)
}

// C06_Long: default-size windows.
func C06_Long() {
	n := sym.Tier(60, 130)
	p := []int{14, 20, 30, 50, 100}[sym.Range("period#", 0, sym.Tier(3, 4))]
	v := floats("v", n)
	r := ta.Sma(p, v)
	m := ta.MA(v, p)
	s := ta.Sum(p, v)
	for i := 0; i < n; i++ {
		w := win(v, i, p)
		sym.AssertEq(r[i], sum(w)/float64(len(w)), "Sma is the mean of the window")
		sym.AssertEq(s[i], sum(w), "Sum is the total of the window")
		if i >= p-1 {
			sym.AssertEq(m[i], sum(w)/float64(p), "MA is the mean of the window")
		}
	}
}

func orRma(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		if i < p {
			r[i] = mean(v[:i+1])
		} else {
			r[i] = (r[i-1]*float64(p-1) + v[i]) / float64(p)
		}
	}
	return r
}

// C07_Ema: the exponential averages follow their recurrences.
func C07_Ema() {
	n := sym.Range("n", 0, sym.Tier(7, 10))
	p := []int{1, 2, 3, 9, 12, 26, 200}[sym.Range("period#", 0, 6)]
	v := floats("v", n)
	e := ta.Ema(p, v)
	w := orEma(p, v)
	w2 := orEma(p, w)
	d := ta.Dema(p, v)
	sym.Assert(len(e) == n, "Ema keeps the length")
	sym.Assert(len(d) == n, "Dema keeps the length")
	for i := 0; i < n; i++ {
		sym.AssertEq(e[i], w[i], "Ema recurrence")
		sym.AssertEq(d[i], 2*w[i]-w2[i], "Dema is 2*EMA - EMA(EMA)")
	}
	observe("e", e)
	observe("d", d)
}

// C07_Between: an EMA never leaves the range of the values seen so far.
func C07_Between() {
	n := sym.Range("n", 1, sym.Tier(5, 8))
	p := sym.Range("period", 1, sym.Tier(4, 9))
	v := floats("v", n)
	e := ta.Ema(p, v)
	s := ta.Sma(p, v)
	for i := 0; i < n; i++ {
		sym.AssertLe(minOf(v[:i+1]), e[i], "Ema is at least the smallest value so far")
		sym.AssertLe(e[i], maxOf(v[:i+1]), "Ema is at most the largest value so far")
		sym.AssertLe(minOf(win(v, i, p)), s[i], "Sma is at least the smallest value of its window")
		sym.AssertLe(s[i], maxOf(win(v, i, p)), "Sma is at most the largest value of its window")
	}
}

// C07_Rma: the rolling moving average: SMA for the first p values, then Wilder's recurrence.
func C07_Rma() {
	n := sym.Range("n", 0, sym.Tier(7, 10))
	p := []int{1, 2, 3, 4, 5, 14}[sym.Range("period#", 0, 5)]
	v := floats("v", n)
	r := ta.Rma(p, v)
	w := orRma(p, v)
	sym.Assert(len(r) == n, "Rma keeps the length")
	for i := 0; i < n; i++ {
		sym.AssertEq(r[i], w[i], "Rma recurrence")
	}
	observe("r", r)
}

// C07_RmaLong: Wilder's default period past its warm-up.
func C07_RmaLong() {
	n := sym.Tier(24, 40)
	v := floats("v", n)
	r := ta.Rma(14, v)
	w := orRma(14, v)
	for i := 0; i < n; i++ {
		sym.AssertEq(r[i], w[i], "Rma recurrence")
	}
}

// C08_Wma: linearly weighted mean of the full window, newest value heaviest.
func C08_Wma() {
	n := sym.Range("n", 0, sym.Tier(7, 16))
	p := sym.Range("period", 1, sym.Tier(5, 10))
	v := floats("v", n)
	r := ta.Wma(p, v)
	sym.Assert(len(r) == n, "Wma keeps the length")
	for i := 0; i < n; i++ {
		if i < p-1 {
			sym.AssertEq(r[i], 0, "no value before the window is full")
			continue
		}
		s := 0.0
		for k := 0; k < p; k++ {
			s += float64(p-k) * v[i-k]
		}
		sym.AssertEq(r[i], s/float64(p*(p+1)/2), "Wma is the weighted mean of the window")
	}
	observe("r", r)
}

// orLine fits y = b + m*x by least squares to x = 0..p-1 (p >= 2).
func orLine(y []float64) (m, b float64) {
	p := float64(len(y))
	mx := (p - 1) / 2
	my := mean(y)
	var sxy, sxx float64
	for i := 0; i < len(y); i++ {
		sxy += (float64(i) - mx) * (y[i] - my)
		sxx += (float64(i) - mx) * (float64(i) - mx)
	}
	m = sxy / sxx
	return m, my - m*mx
}

func linreg(n, p int) {
	v := floats("v", n)
	r := ta.LinearReg(v, p)
	s := ta.LinearRegSlope(v, p)
	c := ta.LinearRegIntercept(v, p)
	sym.Assert(len(r) == n, "LinearReg keeps the length")
	sym.Assert(len(s) == n, "LinearRegSlope keeps the length")
	sym.Assert(len(c) == n, "LinearRegIntercept keeps the length")
	for i := 0; i < n; i++ {
		if i < p-1 {
			sym.AssertEq(r[i], 0, "no value before the window is full")
			sym.AssertEq(s[i], 0, "no slope before the window is full")
			sym.AssertEq(c[i], 0, "no intercept before the window is full")
			continue
		}
		m, b := orLine(win(v, i, p))
		sym.AssertEq(r[i], b+m*float64(p-1), "LinearReg is the fitted line's end point")
		sym.AssertEq(s[i], m, "LinearRegSlope is the fitted slope")
		sym.AssertEq(c[i], b, "LinearRegIntercept is the fitted intercept")
	}
	observe("r", r)
}

// C08_LinReg: ordinary least squares over each full window.
func C08_LinReg() {
	n := sym.Range("n", 0, sym.Tier(7, 12))
	p := sym.Range("period", 2, sym.Tier(5, 9))
	linreg(n, p)
}

// C08_LinRegLong: default-size windows.
func C08_LinRegLong() {
	p := sym.Range("period#", 0, 1)
	linreg(sym.Tier(30, 60), []int{14, 20}[p])
}

// C08_Angle: the angle is the arctangent of the slope, in degrees.
func C08_Angle() {
	n := sym.Range("n", 1, 4)
	p := sym.Range("period", 2, 3)
	v := floats("v", n)
	a := ta.LinearRegAngle(v, p)
	s := ta.LinearRegSlope(v, p)
	sym.Assert(len(a) == n, "LinearRegAngle keeps the length")
	for i := 0; i < n; i++ {
		if i < p-1 {
			sym.AssertEq(a[i], 0, "no angle before the window is full")
		} else {
			sym.Assert((a[i] > 0) == (s[i] > 0), "the angle is positive exactly when the slope is")
			sym.Assert((a[i] < 0) == (s[i] < 0), "the angle is negative exactly when the slope is")
			sym.AssertLe(a[i], 90.0001, "the angle is at most 90 degrees")
			sym.AssertLe(-90.0001, a[i], "the angle is at least -90 degrees")
		}
	}
}

// C09_Variance: population variance of each full window, never negative.
func C09_Variance() {
	n := sym.Range("n", 0, sym.Tier(6, 8))
	p := sym.Range("period", 1, sym.Tier(4, 6))
	v := floats("v", n)
	r := ta.Variance(v, p)
	sym.Assert(len(r) == n, "Variance keeps the length")
	for i := 0; i < n; i++ {
		if i < p-1 {
			sym.AssertEq(r[i], 0, "no value before the window is full")
			continue
		}
		w := win(v, i, p)
		m := mean(w)
		s := 0.0
		for k := 0; k < p; k++ {
			s += (w[k] - m) * (w[k] - m)
		}
		sym.AssertEq(r[i], s/float64(p), "Variance is the mean squared deviation of the window")
	}
	observe("r", r)
}

// C09_StdDev: the scaled square root of the variance.
func C09_StdDev() {
	n := sym.Range("n", 1, sym.Tier(4, 6))
	p := sym.Range("period", 1, 3)
	v := floats("v", n)
	nb := []float64{1, 2, 0.5}[sym.Range("nbdev#", 0, 2)]
	r := ta.StdDev(v, p, nb)
	x := ta.Variance(v, p)
	sym.Assert(len(r) == n, "StdDev keeps the length")
	for i := 0; i < n; i++ {
		sym.AssertLe(0, r[i], "StdDev is not negative")
		sym.AssertEq(r[i]*r[i], x[i]*nb*nb, "StdDev squared is the variance times the factor squared")
	}
}

// C09_SD: the population standard deviation of the whole slice.
func C09_SD() {
	n := sym.Range("n", 1, sym.Tier(5, 8))
	v := floats("v", n)
	r := ta.SD(v)
	m := mean(v)
	s := 0.0
	for i := 0; i < n; i++ {
		s += (v[i] - m) * (v[i] - m)
	}
	sym.AssertLe(0, r, "SD is not negative")
	sym.AssertEq(r*r, s/float64(n), "SD squared is the mean squared deviation")
}

func orDev(w []float64) float64 {
	m := mean(w)
	s := 0.0
	for k := 0; k < len(w); k++ {
		s += fabs(w[k] - m)
	}
	return s / float64(len(w))
}

// C09_Dev: mean absolute deviation of each full window.
func C09_Dev() {
	n := sym.Range("n", 0, sym.Tier(5, 7))
	p := sym.Range("period", 0, sym.Tier(4, 5))
	v := floats("v", n)
	r := ta.Dev(v, p)
	sym.Assert(len(r) == n, "Dev keeps the length")
	for i := 0; i < n; i++ {
		if p < 1 || i < p-1 {
			sym.AssertEq(r[i], 0, "no value before the window is full")
			continue
		}
		sym.AssertEq(r[i], orDev(win(v, i, p)), "Dev is the mean absolute deviation of the window")
	}
	observe("r", r)
}

// C09_MeanDeviation: the same around a given centre series.
func C09_MeanDeviation() {
	n := sym.Range("n", 0, sym.Tier(5, 7))
	p := sym.Range("period", 1, sym.Tier(4, 5))
	v := floats("v", n)
	c := floats("c", n)
	r := ta.MeanDeviation(v, p, c)
	sym.Assert(len(r) == n, "MeanDeviation keeps the length")
	for i := 0; i < n; i++ {
		if i < p-1 {
			sym.AssertEq(r[i], 0, "no value before the window is full")
			continue
		}
		s := 0.0
		for k := i - p + 1; k <= i; k++ {
			s += fabs(v[k] - c[i])
		}
		sym.AssertEq(r[i], s/float64(p), "MeanDeviation is the mean distance from the centre")
	}
}

func orTR(h, l, c []float64) []float64 {
	r := make([]float64, len(c))
	for i := 1; i < len(c); i++ {
		r[i] = fmax(h[i]-l[i], fmax(fabs(h[i]-c[i-1]), fabs(l[i]-c[i-1])))
	}
	return r
}

// C10_TrueRange: max(high-low, |high-prev close|, |low-prev close|); never negative.
func C10_TrueRange() {
	n := sym.Range("n", 0, sym.Tier(6, 10))
	h, l, c := floats("h", n), floats("l", n), floats("c", n)
	for _, r := range [][]float64{ta.TrueRange(h, l, c), ta.TRange(h, l, c), ta.Atr(h, l, c, 1), ta.Natr(h, l, c, 1)} {
		w := orTR(h, l, c)
		sym.Assert(len(r) == n, "TrueRange keeps the length")
		for i := 0; i < n; i++ {
			sym.AssertEq(r[i], w[i], "TrueRange definition")
			sym.AssertLe(0, r[i], "TrueRange is not negative")
		}
	}
}

func atr(n, p int) {
	h, l, c := floats("h", n), floats("l", n), floats("c", n)
	r := ta.Atr(h, l, c, p)
	w := orRma(p, orTR(h, l, c))
	sym.Assert(len(r) == n, "Atr keeps the length")
	for i := 0; i < n; i++ {
		if i < p {
			sym.AssertEq(r[i], 0, "no value before the period has passed")
		} else {
			sym.AssertEq(r[i], w[i], "Atr is the rolling moving average of the true range")
		}
	}
	observe("r", r)
}

// C10_Atr: Wilder's average of the true range.
func C10_Atr() {
	p := sym.Range("period", 2, sym.Tier(4, 6))
	n := sym.Range("n", 0, sym.Tier(7, 10))
	atr(n, p)
}

// C10_AtrLong: the default period.
func C10_AtrLong() { atr(sym.Tier(20, 30), 14) }

// C10_Natr: the average true range as a percentage of the close.
func C10_Natr() {
	p := sym.Range("period", 2, sym.Tier(4, 6))
	n := sym.Range("n", 0, sym.Tier(7, 9))
	h, l, c := floats("h", n), floats("l", n), floats("c", n)
	r := ta.Natr(h, l, c, p)
	tr := orTR(h, l, c)
	sym.Assert(len(r) == n, "Natr keeps the length")
	a := 0.0
	for i := 0; i < n; i++ {
		if i < p {
			sym.AssertEq(r[i], 0, "no value before the period has passed")
			continue
		}
		if i == p {
			a = mean(tr[1 : p+1])
		} else {
			a = (a*float64(p-1) + tr[i]) / float64(p)
		}
		if c[i] == 0 {
			sym.AssertEq(r[i], 0, "a zero close gives 0")
		} else {
			sym.AssertEq(r[i], a/c[i]*100, "Natr is 100 * ATR / close")
		}
	}
}

// C11_Elementwise: the vector helpers work element by element.
func C11_Elementwise() {
	n := sym.Range("n", 0, sym.Tier(4, 6))
	a, b := floats("a", n), floats("b", n)
	ka, kb := dup(a), dup(b)
	x := sym.Float("x", 0)
	add, sub, mul, div := ta.Add(a, b), ta.Subtract(a, b), ta.Multiply(a, b), ta.Divide(a, b)
	addBy, mulBy := ta.AddBy(a, x), ta.MultiplyBy(a, x)
	abs, sign, pos, neg := ta.Abs(a), ta.ExtractSign(a), ta.KeepPositives(a), ta.KeepNegatives(a)
	for _, r := range [][]float64{add, sub, mul, div, addBy, mulBy, abs, sign, pos, neg} {
		sym.Assert(len(r) == n, "the length is kept")
	}
	for i := 0; i < n; i++ {
		sym.AssertEq(a[i], ka[i], "the first operand is not modified")
		sym.AssertEq(b[i], kb[i], "the second operand is not modified")
		sym.AssertEq(add[i], ka[i]+kb[i], "Add")
		sym.AssertEq(sub[i], ka[i]-kb[i], "Subtract")
		sym.AssertEq(mul[i], ka[i]*kb[i], "Multiply")
		if kb[i] == 0 {
			sym.AssertEq(div[i], 0, "Divide by zero gives 0")
		} else {
			sym.AssertEq(div[i], ka[i]/kb[i], "Divide")
		}
		sym.AssertEq(addBy[i], ka[i]+x, "AddBy")
		sym.AssertEq(mulBy[i], ka[i]*x, "MultiplyBy")
		sym.AssertEq(abs[i], fabs(ka[i]), "Abs")
		if ka[i] >= 0 {
			sym.AssertEq(sign[i], 1, "ExtractSign of a value that is not negative")
			sym.AssertEq(pos[i], ka[i], "KeepPositives keeps what is not negative")
			sym.AssertEq(neg[i], 0, "KeepNegatives drops what is not negative")
		} else {
			sym.AssertEq(sign[i], -1, "ExtractSign of a negative value")
			sym.AssertEq(pos[i], 0, "KeepPositives drops negatives")
			sym.AssertEq(neg[i], ka[i], "KeepNegatives keeps negatives")
		}
	}
	if x != 0 {
		db := ta.DivideBy(a, x)
		sym.Assert(len(db) == n, "DivideBy keeps the length")
		for i := 0; i < n; i++ {
			sym.AssertEq(db[i], ka[i]/x, "DivideBy")
		}
	}
}

// C11_Divide_FP: bit-precisely, for every pair of float64 values (NaN and
// infinities included) Divide never produces NaN or an infinity.
func C11_Divide_FP() {
	a, b := sym.Float("a", 0), sym.Float("b", 0)
	r := ta.Divide([]float64{a}, []float64{b})
	sym.Assert(len(r) == 1, "Divide keeps the length")
	d := r[0] - r[0]
	sym.Assert(d == 0, "Divide is always finite")
}

// C11_Nz_FP: Nz replaces NaN and nothing else, bit-precisely.
func C11_Nz_FP() {
	a, b := sym.Float("a", 0), sym.Float("b", 0)
	r := ta.Nz(a, b)
	if a != a {
		sym.Assert(r == b || b != b && r != r, "NaN is replaced")
	} else {
		sym.Assert(r == a, "anything else is kept")
	}
	v := ta.Nzs([]float64{a, b}, 1)
	sym.Assert(len(v) == 2, "Nzs keeps the length")
	sym.Assert(v[0] == v[0], "no NaN is left")
	sym.Assert(v[1] == v[1], "no NaN is left")
	if b == b {
		sym.Assert(v[1] == b, "anything else is kept")
	} else {
		sym.Assert(v[1] == 1, "NaN is replaced")
	}
}

// C11_Shift: shifting moves values to later positions and fills the gap.
func C11_Shift() {
	n := sym.Range("n", 0, sym.Tier(6, 8))
	k := sym.Range("by", 0, sym.Tier(7, 9))
	v := floats("v", n)
	f := sym.Float("fill", 0)
	r, z, d := ta.ShiftRightAndFillBy(k, f, v), ta.ShiftRight(k, v), ta.Diff(v, k)
	sym.Assert(len(r) == n, "ShiftRightAndFillBy keeps the length")
	sym.Assert(len(z) == n, "ShiftRight keeps the length")
	sym.Assert(len(d) == n, "Diff keeps the length")
	for i := 0; i < n; i++ {
		if i < k {
			sym.AssertEq(r[i], f, "the gap is filled")
			sym.AssertEq(z[i], 0, "the gap is zero")
			sym.AssertEq(d[i], v[i], "Diff against nothing is the value")
		} else {
			sym.AssertEq(r[i], v[i-k], "values move right")
			sym.AssertEq(z[i], v[i-k], "values move right")
			sym.AssertEq(d[i], v[i]-v[i-k], "Diff is the change over the distance")
		}
	}
	for i := 0; i < n; i++ {
		sym.Assume(v[i] != 0)
	}
	pd := ta.PercentDiff(v, k)
	sym.Assert(len(pd) == n, "PercentDiff keeps the length")
	for i := 0; i < n; i++ {
		if i < k {
			sym.AssertEq(pd[i], 0, "no change before the distance is reached")
		} else {
			sym.AssertEq(pd[i], (v[i]-v[i-k])/v[i-k], "PercentDiff is the relative change")
		}
	}
}

// C11_Round: rounding to d decimals: nearest multiple of 10^-d, halves away from zero.
func C11_Round() {
	d := sym.Range("digits", 0, 4)
	kind := sym.Range("kind", 0, 2)
	m := sym.Int("m", 0, -1000000, 1000000)
	f := sym.Float("f", 0)
	k := 1.0
	for i := 0; i < d; i++ {
		k *= 10
	}
	want := float64(m) / k
	switch kind {
	case 0: // strictly closer to m/k than to any other multiple
		sym.Assume(f > -0.49)
		sym.Assume(f < 0.49)
	case 1: // a positive half
		sym.Assume(m >= 1)
		f = -0.5
	default:
		sym.Assume(m <= -1)
		f = 0.5
	}
	x := (float64(m) + f) / k
	sym.AssertEq(ta.RoundDigits(x, d), want, "RoundDigits gives the nearest multiple of 10^-d, halves away from zero")
	r := ta.RoundDigitsAll([]float64{1, x}, d)
	sym.Assert(len(r) == 2, "RoundDigitsAll keeps the length")
	sym.AssertEq(r[0], 1, "RoundDigitsAll keeps a whole number")
	sym.AssertEq(r[1], want, "RoundDigitsAll rounds every value")
}

// C11_Generate: GenerateNumbers counts from begin in steps.
func C11_Generate() {
	n := sym.Range("n", 0, 6)
	b := sym.Float("begin", 0)
	st := []float64{1, 0.5, 2, -1, 0.25}[sym.Range("step#", 0, 4)]
	g := ta.GenerateNumbers(b, b+st*float64(n), st)
	sym.Assert(len(g) == n, "GenerateNumbers yields (end-begin)/step numbers")
	for i := 0; i < n; i++ {
		sym.AssertEq(g[i], b+st*float64(i), "GenerateNumbers counts in steps")
	}
}

// C11_Sqrt: element-wise square roots.
func C11_Sqrt() {
	n := sym.Range("n", 0, 3)
	v := floats("v", n)
	for i := 0; i < n; i++ {
		sym.Assume(v[i] >= 0)
	}
	r := ta.Sqrt(v)
	p := ta.Pow(v, 2)
	sym.Assert(len(r) == n, "Sqrt keeps the length")
	sym.Assert(len(p) == n, "Pow keeps the length")
	for i := 0; i < n; i++ {
		sym.AssertLe(0, r[i], "Sqrt is not negative")
		sym.AssertEq(r[i]*r[i], v[i], "Sqrt squared is the value")
		sym.AssertEq(p[i], v[i]*v[i], "Pow with exponent 2 is the square")
	}
}

// C12_Pivots: a pivot is reported exactly when the candidate is the window's extreme.
func C12_Pivots() {
	n := sym.Range("n", 0, sym.Tier(5, 6))
	l := sym.Range("left", 0, 2)
	r := sym.Range("right", 0, 2)
	v := floats("v", n)
	ph, pl := ta.PivotHigh(v, l, r), ta.PivotLow(v, l, r)
	sym.Assert(len(ph) == n, "PivotHigh keeps the length")
	sym.Assert(len(pl) == n, "PivotLow keeps the length")
	for i := 0; i < n; i++ {
		if i < l+r {
			sym.AssertEq(ph[i], 0, "no pivot before the window is full")
			sym.AssertEq(pl[i], 0, "no pivot before the window is full")
			continue
		}
		w := v[i-l-r : i+1]
		c := v[i-r]
		if c == maxOf(w) {
			sym.AssertEq(ph[i], c, "the window's maximum is a pivot high")
		} else {
			sym.AssertEq(ph[i], 0, "anything else is no pivot high")
		}
		if c == minOf(w) {
			sym.AssertEq(pl[i], c, "the window's minimum is a pivot low")
		} else {
			sym.AssertEq(pl[i], 0, "anything else is no pivot low")
		}
	}
}

// C12_PivotMaxMin: the extreme around an index, with its position.
func C12_PivotMaxMin() {
	n := sym.Range("n", 1, sym.Tier(5, 7))
	at := sym.Range("index", 0, n-1)
	l := sym.Range("left", 0, 3)
	r := sym.Range("right", 0, 3)
	v := floats("v", n)
	w := v[imax(0, at-l):imin(n, at+r+1)]
	mx, px := ta.PivotMax(v, at, l, r)
	mn, pn := ta.PivotMin(v, at, l, r)
	sym.AssertEq(mx, maxOf(w), "PivotMax finds the largest value around the index")
	sym.AssertEq(mn, minOf(w), "PivotMin finds the smallest value around the index")
	sym.Assert(px >= at-l && px <= at+r && px >= 0 && px < n, "PivotMax's position is in range")
	sym.Assert(pn >= at-l && pn <= at+r && pn >= 0 && pn < n, "PivotMin's position is in range")
	for i := 0; i < n; i++ {
		if i == px {
			sym.AssertEq(v[i], mx, "PivotMax's position holds its value")
		}
		if i == pn {
			sym.AssertEq(v[i], mn, "PivotMin's position holds its value")
		}
	}
}

// C12_Cross: a cross compares the last two values with the level.
func C12_Cross() {
	n := sym.Range("n", 2, 4)
	v := floats("v", n)
	s := sym.Float("level", 0)
	sym.Assert(ta.CrossOver(v, s) == (v[n-1] > s && v[n-2] < s), "CrossOver")
	sym.Assert(ta.CrossUnder(v, s) == (v[n-1] < s && v[n-2] > s), "CrossUnder")
}
