package zzverif

import (
	"github.com/idoall/stockindicator/utils/ta"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// longFloats is a fixed series, with ties, zeros and negative values, of which
// the listed positions are arbitrary.
func longFloats(name string, n, salt int, free ...int) []float64 {
	v := make([]float64, n)
	for i := 0; i < n; i++ {
		v[i] = float64((i*37+salt)%23 - (i*i*13)%17)
	}
	for k, f := range free {
		v[f] = sym.Float(name, k)
	}
	return v
}

// windows calls f with every period of a wide range and with lengths around and
// beyond each, and with every length of a wide range for some periods, so that
// no size is special.
func windows(f func(n, p int)) {
	k := sym.Range("sizes", 0, sym.Tier(15, 31))
	for p := 1 + 2*k; p <= 2+2*k; p++ {
		for _, n := range []int{p, p + 1, 2*p + 3} {
			f(n, p)
		}
	}
	for n := 1 + 4*k; n <= 4+4*k; n++ {
		f(n, 3)
		f(n, 10)
	}
}

// C05_Sizes_Paths: no window or series size is special (one arbitrary value among fixed ones).
func C05_Sizes_Paths() {
	windows(func(n, p int) {
		v := longFloats("v", n, 0, n/2)
		mx, mn := ta.Max(p, v), ta.Min(p, v)
		sym.Assert(len(mx) == n && len(mn) == n, "Max and Min keep the length")
		for i := 0; i < n; i++ {
			sym.AssertEq(mx[i], maxOf(win(v, i, p)), "Max is the window's largest value")
			sym.AssertEq(mn[i], minOf(win(v, i, p)), "Min is the window's smallest value")
		}
		sym.AssertEq(ta.Highest(v, p), maxOf(win(v, n-1, p)), "Highest is the largest of the last values")
		sym.AssertEq(ta.Lowest(v, p), minOf(win(v, n-1, p)), "Lowest is the smallest of the last values")
	})
}

// C06_Sizes: no window or series size is special.
func C06_Sizes() {
	windows(func(n, p int) {
		v := longFloats("v", n, 0, n/2, n-1)
		m, r, s := ta.MA(v, p), ta.Sma(p, v), ta.Sum(p, v)
		sym.Assert(len(m) == n && len(r) == n && len(s) == n, "the averages keep the length")
		for i := 0; i < n; i++ {
			w := win(v, i, p)
			sym.AssertEq(r[i], mean(w), "Sma is the mean of the window")
			sym.AssertEq(s[i], sum(w), "Sum is the total of the window")
			if i < p-1 {
				sym.AssertEq(m[i], 0, "no average before the window is full")
			} else {
				sym.AssertEq(m[i], mean(w), "MA is the mean of the window")
			}
		}
		sym.AssertEq(ta.Cum(v), sum(v), "Cum is the total")
		sym.AssertEq(ta.Mean(v), sum(v)/float64(n), "Mean is the total divided by the count")
	})
}

// C07_Sizes: no period or series size is special.
func C07_Sizes() {
	windows(func(n, p int) {
		v := longFloats("v", n, 0, n/2, n-1)
		e, d, r := ta.Ema(p, v), ta.Dema(p, v), ta.Rma(p, v)
		w, q := orEma(p, v), orRma(p, v)
		w2 := orEma(p, w)
		sym.Assert(len(e) == n && len(d) == n && len(r) == n, "the averages keep the length")
		for i := 0; i < n; i++ {
			sym.AssertEq(e[i], w[i], "Ema recurrence")
			sym.AssertEq(d[i], 2*w[i]-w2[i], "Dema is 2*EMA - EMA(EMA)")
			sym.AssertEq(r[i], q[i], "Rma recurrence")
		}
	})
}

// C08_Sizes: no window or series size is special.
func C08_Sizes() {
	windows(func(n, p int) {
		v := longFloats("v", n, 0, n/2, n-1)
		r := ta.Wma(p, v)
		sym.Assert(len(r) == n, "Wma keeps the length")
		for i := 0; i < n; i++ {
			s := 0.0
			for k := 0; k < p && i >= p-1; k++ {
				s += float64(p-k) * v[i-k]
			}
			sym.AssertEq(r[i], s/float64(p*(p+1)/2), "Wma is the weighted mean of the window, 0 before it is full")
		}
		if p < 2 {
			return
		}
		g, s, c := ta.LinearReg(v, p), ta.LinearRegSlope(v, p), ta.LinearRegIntercept(v, p)
		sym.Assert(len(g) == n && len(s) == n && len(c) == n, "the regressions keep the length")
		for i := 0; i < n; i++ {
			m, b := 0.0, 0.0
			if i >= p-1 {
				m, b = orLine(win(v, i, p))
			}
			sym.AssertEq(g[i], b+m*float64(p-1), "LinearReg is the fitted line's end point")
			sym.AssertEq(s[i], m, "LinearRegSlope is the fitted slope")
			sym.AssertEq(c[i], b, "LinearRegIntercept is the fitted intercept")
		}
	})
}

// C09_Sizes: no window or series size is special.
func C09_Sizes() {
	windows(func(n, p int) {
		v := longFloats("v", n, 0, n/2)
		c := longFloats("c", n, 5, n/2)
		a, t, d, e := ta.Variance(v, p), ta.StdDev(v, p, 2), ta.Dev(v, p), ta.MeanDeviation(v, p, c)
		sym.Assert(len(a) == n && len(t) == n && len(d) == n && len(e) == n, "the deviations keep the length")
		for i := 0; i < n; i++ {
			x, y, z := 0.0, 0.0, 0.0
			if i >= p-1 {
				w := win(v, i, p)
				m := mean(w)
				for k := 0; k < p; k++ {
					x += (w[k] - m) * (w[k] - m)
					z += fabs(w[k] - c[i])
				}
				y = orDev(w)
			}
			sym.AssertEq(a[i], x/float64(p), "Variance is the mean squared deviation of the window")
			sym.AssertLe(0, t[i], "StdDev is not negative")
			sym.AssertEq(t[i]*t[i], 4*x/float64(p), "StdDev squared is the variance times the factor squared")
			sym.AssertEq(d[i], y, "Dev is the mean absolute deviation of the window")
			sym.AssertEq(e[i], z/float64(p), "MeanDeviation is the mean distance from the centre")
		}
		s, m := 0.0, mean(v)
		for i := 0; i < n; i++ {
			s += (v[i] - m) * (v[i] - m)
		}
		sd := ta.SD(v)
		sym.AssertLe(0, sd, "SD is not negative")
		sym.AssertEq(sd*sd, s/float64(n), "SD squared is the mean squared deviation")
	})
}

// C10_Sizes: no period or series size is special.
func C10_Sizes() {
	windows(func(n, p int) {
		h, l, c := longFloats("h", n, 9, n/2), longFloats("l", n, 2, n/2), longFloats("c", n, 4, n/2)
		tr := orTR(h, l, c)
		a, b := ta.TrueRange(h, l, c), ta.TRange(h, l, c)
		t, q := ta.Atr(h, l, c, p), ta.Natr(h, l, c, p)
		w := orRma(p, tr)
		sym.Assert(len(a) == n && len(b) == n && len(t) == n && len(q) == n, "the ranges keep the length")
		m := 0.0
		for i := 0; i < n; i++ {
			sym.AssertEq(a[i], tr[i], "TrueRange definition")
			sym.AssertEq(b[i], tr[i], "TRange definition")
			if p == 1 {
				sym.AssertEq(t[i], tr[i], "the average over one is the true range")
				sym.AssertEq(q[i], tr[i], "the average over one is the true range")
				continue
			}
			x, y := 0.0, 0.0
			if i == p {
				m = mean(tr[1 : p+1])
			} else if i > p {
				m = (m*float64(p-1) + tr[i]) / float64(p)
			}
			if i >= p {
				x = w[i]
				if c[i] != 0 {
					y = m / c[i] * 100
				}
			}
			sym.AssertEq(t[i], x, "Atr is the rolling moving average of the true range")
			sym.AssertEq(q[i], y, "Natr is 100 * ATR / close, 0 for a zero close")
		}
	})
}

// C11_Sizes: no series size, distance or fixed value is special.
func C11_Sizes() {
	windows(func(n, p int) {
		a, b := longFloats("a", n, 0, n/2), longFloats("b", n, 5, n-1)
		x := sym.Float("x", 0)
		add, sub, mul, div := ta.Add(a, b), ta.Subtract(a, b), ta.Multiply(a, b), ta.Divide(a, b)
		addBy, mulBy := ta.AddBy(a, x), ta.MultiplyBy(a, x)
		abs, sign, pos, neg := ta.Abs(a), ta.ExtractSign(a), ta.KeepPositives(a), ta.KeepNegatives(a)
		r, z, d := ta.ShiftRightAndFillBy(p, x, a), ta.ShiftRight(p, a), ta.Diff(a, p)
		for _, s := range [][]float64{add, sub, mul, div, addBy, mulBy, abs, sign, pos, neg, r, z, d} {
			sym.Assert(len(s) == n, "the length is kept")
		}
		for i := 0; i < n; i++ {
			sym.AssertEq(add[i], a[i]+b[i], "Add")
			sym.AssertEq(sub[i], a[i]-b[i], "Subtract")
			sym.AssertEq(mul[i], a[i]*b[i], "Multiply")
			sym.AssertEq(div[i], ratio(a[i], b[i]), "Divide, by zero 0")
			sym.AssertEq(addBy[i], a[i]+x, "AddBy")
			sym.AssertEq(mulBy[i], a[i]*x, "MultiplyBy")
			sym.AssertEq(abs[i], fabs(a[i]), "Abs")
			if a[i] >= 0 {
				sym.AssertEq(sign[i], 1, "ExtractSign of a value that is not negative")
			} else {
				sym.AssertEq(sign[i], -1, "ExtractSign of a negative value")
			}
			sym.AssertEq(pos[i], fmax(a[i], 0), "KeepPositives keeps what is not negative")
			sym.AssertEq(neg[i], fmin(a[i], 0), "KeepNegatives keeps negatives")
			if i < p {
				sym.AssertEq(r[i], x, "the gap is filled")
				sym.AssertEq(z[i], 0, "the gap is zero")
				sym.AssertEq(d[i], a[i], "Diff against nothing is the value")
			} else {
				sym.AssertEq(r[i], a[i-p], "values move right")
				sym.AssertEq(z[i], a[i-p], "values move right")
				sym.AssertEq(d[i], a[i]-a[i-p], "Diff is the change over the distance")
			}
		}
	})
}

// C12_Sizes_Paths: no distance or series size is special.
func C12_Sizes_Paths() {
	windows(func(n, p int) {
		v := longFloats("v", n, 0, n/2)
		l, r := p/3, p-2*(p/3)
		ph, pl := ta.PivotHigh(v, l, r), ta.PivotLow(v, l, r)
		sym.Assert(len(ph) == n && len(pl) == n, "the pivots keep the length")
		for i := 0; i < n; i++ {
			hi, lo := 0.0, 0.0
			if i >= l+r {
				w := v[i-l-r : i+1]
				if v[i-r] == maxOf(w) {
					hi = v[i-r]
				}
				if v[i-r] == minOf(w) {
					lo = v[i-r]
				}
			}
			sym.AssertEq(ph[i], hi, "the window's maximum, and nothing else, is a pivot high")
			sym.AssertEq(pl[i], lo, "the window's minimum, and nothing else, is a pivot low")
		}
		for at := 0; at < n; at += 1 + n/5 {
			w := v[imax(0, at-l):imin(n, at+r+1)]
			mx, px := ta.PivotMax(v, at, l, r)
			mn, pn := ta.PivotMin(v, at, l, r)
			sym.AssertEq(mx, maxOf(w), "PivotMax finds the largest value around the index")
			sym.AssertEq(mn, minOf(w), "PivotMin finds the smallest value around the index")
			sym.Assert(px >= at-l && px <= at+r && px >= 0 && px < n, "PivotMax's position is in range")
			sym.Assert(pn >= at-l && pn <= at+r && pn >= 0 && pn < n, "PivotMin's position is in range")
			sym.AssertEq(v[px], mx, "PivotMax's position holds its value")
			sym.AssertEq(v[pn], mn, "PivotMin's position holds its value")
		}
		if s := float64(p%9 - 4); n >= 2 {
			sym.Assert(ta.CrossOver(v, s) == (v[n-1] > s && v[n-2] < s), "CrossOver")
			sym.Assert(ta.CrossUnder(v, s) == (v[n-1] < s && v[n-2] > s), "CrossUnder")
		}
	})
}
