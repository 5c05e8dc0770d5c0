package zzverif

import (
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// ---- RSI ----

// orRsi is Wilder's: the share of gains in all moves, both averaged over the
// first p moves and then smoothed by 1/p; 0 while there is no full window or
// no move.
func orRsi(p int, c []float64) []float64 {
	r := make([]float64, len(c))
	if p < 2 || len(c) <= p {
		return r
	}
	g, l := 0.0, 0.0
	for i := 1; i < len(c); i++ {
		up, dn := 0.0, 0.0
		if c[i] < c[i-1] {
			dn = c[i-1] - c[i]
		} else {
			up = c[i] - c[i-1]
		}
		if i <= p {
			g += up / float64(p)
			l += dn / float64(p)
		} else {
			g = (g*float64(p-1) + up) / float64(p)
			l = (l*float64(p-1) + dn) / float64(p)
		}
		if i >= p && g+l != 0 {
			r[i] = 100 * g / (g + l)
		}
	}
	return r
}

func rsi(it *klines.Item, x *trend.Rsi, p int) {
	eqSeries(x.GetValue(), orRsi(p, closes(it)), "RSI is the smoothed share of gains in all moves, in percent")
	d := x.GetData()
	checkSides(x.AnalysisSide(), len(d), func(i int) utils.Side {
		return side(d[i].Value < 20 && d[i-1].Value > 20, d[i].Value < 80 && d[i-1].Value > 80)
	})
}

func C23_Rsi() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	rsi(it, trend.NewRsi(it, p), p)
}

func C23_RsiDefault() {
	n := sym.Tier(17, 20)
	it := longItem(n, 0, n-2, n-1)
	rsi(it, trend.NewDefaultRsi(it), 14)
}

// C23_Range: an RSI is a percentage; only rises give 100, only falls 0.
func C23_Range() {
	p := sym.Range("period", 2, 3)
	n := sym.Range("n", 3, sym.Tier(5, 6))
	it := okItem(n)
	c := closes(it)
	v := trend.NewRsi(it, p).GetValue()
	rise, fall := true, true
	for i := 1; i < n; i++ {
		rise = rise && c[i] > c[i-1]+1e-6
		fall = fall && c[i] < c[i-1]
	}
	for i := 0; i < n; i++ {
		sym.AssertLe(0, v[i], "at least 0")
		sym.AssertLe(v[i], 100, "at most 100")
		if i >= p {
			sym.Assert(!rise || v[i] == 100, "100 when prices only rose")
			sym.Assert(!fall || v[i] == 0, "0 when prices only fell")
		}
	}
}

// ---- KDJ ----

func kdj(it *klines.Item, x *trend.Kdj, p int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	hh, ll := orMax(p, h), orMin(p, l)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	k, dd := 50.0, 50.0
	for i := 0; i < n; i++ {
		r := 0.0
		if i >= p-1 {
			r = 100
			if hh[i] > ll[i] {
				r = 100 * (c[i] - ll[i]) / (hh[i] - ll[i])
			}
			k = 2*k/3 + r/3
			dd = 2*dd/3 + k/3
		}
		sym.AssertEq(d[i].RSV, r, "RSV is the close's place in the window's range")
		sym.AssertEq(d[i].K, k, "K moves a third of the way to RSV")
		sym.AssertEq(d[i].D, dd, "D moves a third of the way to K")
		sym.AssertEq(d[i].J, 3*d[i].K-2*d[i].D, "J is 3K - 2D")
	}
	kdjSides(x)
}

func kdjSides(x *trend.Kdj) {
	d := x.GetData()
	checkSides(x.AnalysisSide(), len(d), func(i int) utils.Side {
		a, b := d[i], d[i-1]
		return side(a.K > a.D && a.J > a.D && b.K < b.D && b.J < b.D, a.K < a.D && a.J < a.D && b.K > b.D && b.J > b.D)
	})
}

func C24_Kdj() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	kdj(it, trend.NewKdj(it, p), p)
}

func C24_KdjDefault() {
	n := sym.Tier(12, 16)
	it := longItem(n, n-2)
	kdj(it, trend.NewDefaultKdj(it), 9)
}

// C24_Range: RSV, K and D are percentages.
func C24_Range() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	d := trend.NewKdj(it, p).GetData()
	for i := 0; i < len(d); i++ {
		sym.AssertLe(0, d[i].RSV, "RSV is at least 0")
		sym.AssertLe(d[i].RSV, 100, "RSV is at most 100")
		sym.AssertLe(0, d[i].K, "K is at least 0")
		sym.AssertLe(d[i].K, 100, "K is at most 100")
		sym.AssertLe(0, d[i].D, "D is at least 0")
		sym.AssertLe(d[i].D, 100, "D is at most 100")
	}
}

// ---- Stochastic family ----

func orStoch(p int, h, l, c []float64) []float64 {
	hh, ll := orMax(p, h), orMin(p, l)
	r := make([]float64, len(c))
	for i := 0; i < len(c); i++ {
		r[i] = 100 * ratio(c[i]-ll[i], hh[i]-ll[i])
	}
	return r
}

func stochastic(it *klines.Item, x *oscillator.StochasticOscillator, p int) {
	_, h, l, c, _ := columns(it)
	k := orStoch(p, h, l, c)
	gk, gd := x.GetValues()
	eqSeries(gk, k, "K is the close's place in the window's range, in percent")
	eqSeries(gd, orSma(3, k), "D is the 3-candle average of K")
	d := x.GetData()
	checkSides(x.AnalysisSide(), len(d), func(i int) utils.Side { return crossSide(d[i].K, d[i].D, d[i-1].K, d[i-1].D) })
}

func C25_Stochastic() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	stochastic(it, oscillator.NewStochasticOscillator(it, p), p)
}

func C25_StochasticDefault() {
	n := sym.Tier(17, 20)
	it := longItem(n, n-2)
	stochastic(it, oscillator.NewDefaultStochasticOscillator(it), 14)
}

func williams(it *klines.Item, x *oscillator.WilliamsR, p int) {
	_, h, l, c, _ := columns(it)
	hh, ll := orMax(p, h), orMin(p, l)
	d := x.GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	for i := 0; i < len(c); i++ {
		sym.AssertEq(d[i].Value, -100*ratio(hh[i]-c[i], hh[i]-ll[i]), "the close's distance from the window's high, in percent of its range, negative")
		sym.AssertLe(d[i].Value, 0, "at most 0")
		sym.AssertLe(-100, d[i].Value, "at least -100")
	}
	checkSides(x.AnalysisSide(), len(d), func(i int) utils.Side {
		return side(d[i].Value < -80 && d[i-1].Value > -80, d[i].Value > -20 && d[i-1].Value < -20)
	})
}

func C25_WilliamsR() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	williams(it, oscillator.NewWilliamsR(it, p), p)
}

func C25_WilliamsRDefault() {
	n := sym.Tier(17, 20)
	it := longItem(n, n-3)
	williams(it, oscillator.NewDefaultWilliamsR(it), 14)
}

func stochRsi(it *klines.Item, x *trend.StochRsi, sk, sd, rl, sl int) {
	v := orRsi(rl, closes(it))
	hh, ll := orMax(sl, v), orMin(sl, v)
	var raw []float64
	for i := 0; i < len(v); i++ {
		raw = append(raw, 100*ratio(v[i]-ll[i], hh[i]-ll[i]))
	}
	k := orEma(sk, raw)
	dd := orEma(sd, k)
	d := x.GetData()
	sym.Assert(len(d) == len(v), "one entry per candle")
	for i := 0; i < len(v); i++ {
		sym.AssertEq(d[i].K, k[i], "K is the smoothed place of the RSI in its own window")
		sym.AssertEq(d[i].D, dd[i], "D is the exponential average of K")
	}
	checkSides(x.AnalysisSide(), len(d), func(i int) utils.Side { return crossSide(d[i].K, d[i].D, d[i-1].K, d[i-1].D) })
}

func C25_StochRsi() {
	sk, sd, sl := sym.Range("smooth K", 1, 2), sym.Range("smooth D", 1, 2), sym.Range("stoch", 1, 3)
	n := sym.Range("n", 2, sym.Tier(6, 8))
	it := longItem(n, n-1)
	stochRsi(it, trend.NewStochRsi(it, sk, sd, 2, sl), sk, sd, 2, sl)
}

func C25_StochRsiDefault() {
	n := sym.Tier(30, 32)
	it := longItem(n, n-1)
	stochRsi(it, trend.NewDefaultStochRsi(it), 3, 3, 14, 14)
}

func heat(it *klines.Item, x *trend.StochasticHeat, inc, fast, slow int, ma types.MATypes) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	f := make([]float64, n)
	for k := 1; k <= 28; k++ {
		s := orMa(ma, fast, orStoch(k*inc, h, l, c))
		for i := 0; i < n; i++ {
			f[i] += s[i] / 100
		}
	}
	w := orMa(ma, slow, f)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Fast, f[i], "Fast sums the 28 smoothed stochastics")
		sym.AssertEq(d[i].Slow, w[i], "Slow is the average of Fast")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side { return crossSide(d[i].Slow, d[i].Fast, d[i-1].Slow, d[i-1].Fast) })
}

func orMa(t types.MATypes, p int, v []float64) []float64 {
	switch t {
	case types.EMA:
		return orEma(p, v)
	case types.SMA:
		return orSma(p, v)
	}
	return orWma(p, v)
}

func C25_Heat() {
	ma := []types.MATypes{types.SMA, types.EMA, types.WMA}[sym.Range("average", 0, 2)]
	inc, fast, slow := 1, sym.Range("fast", 1, 2), sym.Range("slow", 1, 3)
	n := sym.Range("n", 3, sym.Tier(4, 5))
	it := longItem(n, n-1)
	heat(it, trend.NewStochasticHeat(it, inc, fast, slow, 25, ma), inc, fast, slow, ma)
}

func C25_HeatDefault() {
	n := sym.Tier(28, 36)
	it := longItem(n, n-1)
	heat(it, trend.NewDefaultStochasticHeat(it), 8, 7, 26, types.WMA)
}

// ---- CCI ----

func cci(it *klines.Item, x *trend.Cci, p, sp int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	tp := hlc3(h, l, c)
	ma := orSma(sp, tp)
	v := x.GetValue()
	sym.Assert(len(v) == n, "one value per candle")
	for i := 0; i < n; i++ {
		w := 0.0
		if i >= p-1 {
			md := 0.0
			for k := i - p + 1; k <= i; k++ {
				md += fabs(tp[k]-ma[i]) / float64(p)
			}
			w = ratio(tp[i]-ma[i], 0.015*md)
		}
		sym.AssertEq(v[i], w, "CCI is the typical price's distance from its average over 0.015 mean deviations")
	}
	d := x.GetData()
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side { return cciSide(d[i].Value, d[i-1].Value) })
}

func cciSide(v, pv float64) utils.Side {
	return side(v < -100 && pv > -100, v > 100 && pv < 100)
}

func C26_Cci() {
	p, sp := sym.Range("period", 1, 3), sym.Range("average", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	cci(it, trend.NewCci(it, p, sp), p, sp)
}

func C26_CciDefault() {
	n := sym.Tier(22, 24)
	it := longItem(n, n-2)
	cci(it, trend.NewDefaultCci(it), 20, 20)
}

func aiCci(it *klines.Item, x *trend.AiCoinCCI, p int) {
	n := len(it.Candles)
	c := closes(it)
	v := x.GetValue()
	sym.Assert(len(v) == n, "one value per candle")
	for i := 0; i < n; i++ {
		w := 0.0
		if i >= p-1 {
			w = ratio(c[i]-mean(win(c, i, p)), 0.015*orDev(win(c, i, p)))
		}
		sym.AssertEq(v[i], w, "the close's distance from its average over 0.015 mean deviations")
	}
	d := x.GetData()
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side { return cciSide(d[i].Value, d[i-1].Value) })
}

func C26_AiCoin() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	aiCci(it, trend.NewAiCoinCCI(it, p), p)
}

func C26_AiCoinDefault() {
	n := sym.Tier(22, 24)
	it := longItem(n, n-2)
	aiCci(it, trend.NewDefaultAiCoinCCI(it), 20)
}

// C26_Compute: the exported formula over given averages and deviations.
func C26_Compute() {
	n := sym.Range("n", 0, 3)
	c, m, d := floats("close", n), floats("average", n), floats("deviation", n)
	v := trend.ComputeCCI(c, m, d)
	sym.Assert(len(v) == n, "one value per price")
	for i := 0; i < n; i++ {
		sym.AssertEq(v[i], ratio(c[i]-m[i], 0.015*d[i]), "the distance from the average over 0.015 deviations, 0 without deviation")
	}
}

// ---- ADX and Vortex ----

func adx(it *klines.Item, x *trend.AverageDirectionalIndex, p, ln int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	pd, md, dx := make([]float64, n), make([]float64, n), make([]float64, n)
	tr, up, dn := 0.0, 0.0, 0.0
	for i := 1; i < n; i++ {
		t := fmax(h[i]-l[i], fmax(fabs(h[i]-c[i-1]), fabs(l[i]-c[i-1])))
		a, b := h[i]-h[i-1], l[i-1]-l[i]
		u, w := 0.0, 0.0
		if a > b && a > 0 {
			u = a
		}
		if b > a && b > 0 {
			w = b
		}
		f := 1 - 1/float64(ln)
		tr, up, dn = f*tr+t, f*up+u, f*dn+w
		if i >= p-1 {
			pd[i], md[i] = 100*ratio(up, tr), 100*ratio(dn, tr)
			dx[i] = 100 * ratio(fabs(pd[i]-md[i]), pd[i]+md[i])
		}
	}
	ax := orSma(ln, dx)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].DIPlus, pd[i], "DI+ is the smoothed upward movement in percent of the smoothed true range")
		sym.AssertEq(d[i].DIMins, md[i], "DI- is the smoothed downward movement in percent of the smoothed true range")
		sym.AssertEq(d[i].ADX, ax[i], "ADX averages the relative difference of DI+ and DI-")
	}
}

func C27_Adx() {
	p, ln := sym.Range("period", 1, 3), sym.Range("length", 1, 2)
	n := sym.Range("n", 1, sym.Tier(3, 4))
	it := okItem(n)
	adx(it, trend.NewAverageDirectionalIndex(it, p, ln), p, ln)
}

func C27_AdxDefault() {
	n := sym.Tier(33, 36)
	it := longItem(n, n-2)
	adx(it, trend.NewDefaultAverageDirectionalIndex(it), 30, 14)
}

func C27_AdxOHLC() {
	n := sym.Range("n", 1, 3)
	it := okItem(n)
	adx(it, trend.NewAverageDirectionalIndexOHLC(it.GetOHLC(), 1, 2), 1, 2)
}

func vortex(it *klines.Item, x *trend.Vortex, p int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	tr, pm, mm := make([]float64, n), make([]float64, n), make([]float64, n)
	for i := 1; i < n; i++ {
		tr[i] = fmax(h[i]-l[i], fmax(fabs(h[i]-c[i-1]), fabs(l[i]-c[i-1])))
		pm[i], mm[i] = fabs(h[i]-l[i-1]), fabs(l[i]-h[i-1])
	}
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		t := sum(win(tr, i, p))
		sym.AssertEq(d[i].PlusVi, ratio(sum(win(pm, i, p)), t), "VI+ is the upward movement over the window's true range")
		sym.AssertEq(d[i].MinusVi, ratio(sum(win(mm, i, p)), t), "VI- is the downward movement over the window's true range")
	}
}

func C27_Vortex() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	vortex(it, trend.NewVortex(it, p), p)
}

func C27_VortexDefault() {
	n := sym.Tier(14, 20)
	it := longItem(n, n-3)
	vortex(it, trend.NewDefaultVortex(it), 9)
}
