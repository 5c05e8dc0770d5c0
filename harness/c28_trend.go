package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// ---- moving averages of the close ----

func maValues(it *klines.Item, which, p int, def bool) (v []float64) {
	switch which {
	case 0:
		x := trend.NewMa(it, p)
		if def {
			x = trend.NewDefaultMa(it)
		}
		for _, d := range x.GetData() {
			v = append(v, d.Value)
		}
	case 1:
		x := trend.NewSma(it, p)
		if def {
			x = trend.NewDefaultSma(it)
		}
		v = x.GetValues()
	case 2:
		x := trend.NewEma(it, p)
		if def {
			x = trend.NewDefaultEma(it)
		}
		v = x.GetValues()
	case 3:
		x := trend.NewDema(it, p)
		if def {
			x = trend.NewDefaultDema(it)
		}
		v = x.GetValues()
	case 4:
		x := trend.NewRma(it, p)
		if def {
			x = trend.NewDefaultRma(it)
		}
		for _, d := range x.GetData() {
			v = append(v, d.Value)
		}
	case 5:
		x := trend.NewDemaOHLC(it.GetOHLC(), p)
		v = x.GetValues()
	}
	return
}

func orAverage(which, p int, c []float64) []float64 {
	switch which {
	case 0, 1:
		return orSma(p, c)
	case 2:
		return orEma(p, c)
	case 4:
		return orRma(p, c)
	}
	e := orEma(p, c)
	return subv(scale(e, 2), orEma(p, e))
}

func C28_Averages() {
	w, p := sym.Range("average", 0, 5), sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 0, sym.Tier(5, 8)))
	eqSeries(maValues(it, w, p, false), orAverage(w, p, closes(it)), "the named average of the closes")
}

func C28_Defaults() {
	w := sym.Range("average", 0, 4)
	p := []int{20, 9, 5, 20, 13}[w]
	n := p + sym.Tier(4, 12)
	it := longItem(n, 0, n-2, n-1)
	eqSeries(maValues(it, w, 1, true), orAverage(w, p, closes(it)), "the default period's average of the closes")
}

func vegas(it *klines.Item, x *trend.EMAVegas, p, s1, s2, l1, l2 int) {
	n := len(it.Candles)
	c := closes(it)
	e, a1, a2, b1, b2 := orEma(p, c), orEma(s1, c), orEma(s2, c), orEma(l1, c), orEma(l2, c)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Value, e[i], "the exponential average")
		sym.AssertEq(d[i].Short1Value, a1[i], "the first short exponential average")
		sym.AssertEq(d[i].Short2Value, a2[i], "the second short exponential average")
		sym.AssertEq(d[i].Long1Value, b1[i], "the first long exponential average")
		sym.AssertEq(d[i].Long2Value, b2[i], "the second long exponential average")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		if i < 11 {
			return utils.Hold
		}
		golden, dead := false, false
		for k := i - 10; k < i; k++ {
			golden = golden || (d[k].Short2Value > d[k].Long2Value && d[k-1].Short2Value < d[k-1].Long2Value)
			dead = dead || (d[k].Short2Value < d[k].Long2Value && d[k-1].Short2Value > d[k-1].Long2Value)
		}
		v := d[i]
		lo, hi := fmin(v.Short1Value, v.Short2Value), fmax(v.Short1Value, v.Short2Value)
		up := v.Value > v.Short1Value && lo > fmax(v.Long1Value, v.Long2Value) && it.Candles[i].IsBullMarket && golden
		dn := v.Value < v.Short1Value && hi < fmin(v.Long1Value, v.Long2Value) && !it.Candles[i].IsBullMarket && dead
		return side(up, dn)
	})
}

func C28_Vegas() {
	n := sym.Range("n", 11, sym.Tier(13, 15))
	it := longItem(n, 1, n-3, n-1)
	vegas(it, trend.NewEMAVegas(it, 1, 2, 3, 4, 5), 1, 2, 3, 4, 5)
}

// C28_VegasTrend: long swings, so that a cross lies any number of candles back.
func C28_VegasTrend() {
	n := 44
	it := okItem(n)
	free := []int{13, 16, n - 1}[sym.Range("arbitrary#", 0, 2)]
	p := 100.0
	for i := 0; i < n; i++ {
		o := p
		if i < 9 || i > 27 {
			p -= 2
		} else {
			p += 2
		}
		if i != free {
			*it.Candles[i] = klines.Candle{Open: o, Close: p, High: 150, Low: 1, Volume: 1, IsBullMarket: p > o, TimeUnix: it.Candles[i].TimeUnix}
		}
	}
	if sym.Range("periods", 0, 1) == 0 {
		vegas(it, trend.NewEMAVegas(it, 1, 2, 3, 4, 5), 1, 2, 3, 4, 5)
	} else {
		vegas(it, trend.NewEMAVegas(it, 2, 3, 5, 7, 11), 2, 3, 5, 7, 11)
	}
}

func C28_VegasDefault() {
	n := sym.Tier(5, 13)
	it := longItem(n, 0, 1, n-1)
	vegas(it, trend.NewDefaultEMAVegas(it), 12, 144, 169, 575, 676)
}

// ---- Bollinger bands ----

func boll(it *klines.Item, x *channel.Boll, p, k int) {
	n := len(it.Candles)
	c := closes(it)
	m := orSma(p, c)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Middle, m[i], "Middle is the simple average of the closes")
		w := win(c, i, p)
		va := 0.0
		if i >= p-1 {
			for q := 0; q < len(w); q++ {
				va += (w[q] - m[i]) * (w[q] - m[i]) / float64(p)
			}
		}
		sym.AssertLe(0, d[i].MD, "the deviation is not negative")
		sym.AssertEq(d[i].MD*d[i].MD, va, "MD is the standard deviation of the window, 0 before it is full")
		sym.AssertEq(d[i].Upper, m[i]+float64(k)*d[i].MD, "Upper is k deviations above")
		sym.AssertEq(d[i].Lower, m[i]-float64(k)*d[i].MD, "Lower is k deviations below")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		return side(c[i] > d[i].Upper && c[i-1] < d[i-1].Upper, c[i] < d[i].Lower && c[i-1] > d[i-1].Lower)
	})
}

func C29_Boll() {
	p, k := sym.Range("period", 1, 3), sym.Range("deviations", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	boll(it, channel.NewBoll(it, p, k), p, k)
}

func C29_BollDefault() {
	n := sym.Tier(22, 24)
	it := longItem(n, n-2)
	boll(it, channel.NewDefaultBoll(it), 20, 2)
}

// ---- Donchian, Keltner, Ulcer ----

func donchian(it *klines.Item, x *channel.DonchianChannel, p int) {
	n := len(it.Candles)
	c := closes(it)
	hi, lo := orMax(p, c), orMin(p, c)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Upper, hi[i], "Upper is the highest close of the window")
		sym.AssertEq(d[i].Lower, lo[i], "Lower is the lowest close of the window")
		sym.AssertEq(d[i].Middle, (hi[i]+lo[i])/2, "Middle is halfway")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side { return crossSide(c[i], d[i].Middle, c[i-1], d[i-1].Middle) })
}

func C30_Donchian() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	donchian(it, channel.NewDonchianChannel(it, p), p)
}

func C30_DonchianDefault() {
	n := sym.Tier(23, 26)
	it := longItem(n, n-1)
	donchian(it, channel.NewDefaultDonchianChannel(it), 20)
}

// orWilderTR has high-low for the first candle, which has no previous close.
func orWilderTR(h, l, c []float64) []float64 {
	r := orTR(h, l, c)
	if len(r) > 0 {
		r[0] = h[0] - l[0]
	}
	return r
}

func keltner(it *klines.Item, x *channel.KeltnerChannel, p int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	m, a := orEma(p, c), orRma(p, orWilderTR(h, l, c))
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Middle, m[i], "Middle is the exponential average of the closes")
		sym.AssertEq(d[i].Upper, m[i]+2*a[i], "Upper is two average true ranges above")
		sym.AssertEq(d[i].Lower, m[i]-2*a[i], "Lower is two average true ranges below")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side { return crossSide(c[i], d[i].Middle, c[i-1], d[i-1].Middle) })
}

func C30_Keltner() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 7)))
	keltner(it, channel.NewKeltnerChannel(it, p), p)
}

func C30_KeltnerDefault() {
	n := sym.Tier(22, 26)
	it := longItem(n, 1, n-1)
	keltner(it, channel.NewDefaultKeltnerChannel(it), 20)
}

func ulcer(it *klines.Item, x *channel.UlcerIndex, p int) {
	n := len(it.Candles)
	c := closes(it)
	hi := orMax(p, c)
	var sq []float64
	for i := 0; i < n; i++ {
		q := 100 * (c[i] - hi[i]) / hi[i]
		sq = append(sq, q*q)
	}
	w := orSma(p, sq)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertLe(0, d[i].Value, "not negative")
		sym.AssertEq(d[i].Value*d[i].Value, w[i], "the root mean square of the percentage drawdowns")
	}
}

func C30_Ulcer() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(3, 4)))
	ulcer(it, channel.NewUlcerIndex(it, p), p)
}

func C30_UlcerDefault() {
	n := sym.Tier(16, 18)
	it := longItem(n, n-2)
	ulcer(it, channel.NewDefaultUlcerIndex(it), 14)
}

// ---- Ichimoku ----

func ichimoku(it *klines.Item, x *oscillator.IchimokuCloud, conv, spanB, lag int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	cl, bl, sb := hl2(orMax(conv, h), orMin(conv, l)), hl2(orMax(26, h), orMin(26, l)), hl2(orMax(spanB, h), orMin(spanB, l))
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].ConversionLine, cl[i], "the conversion line is the middle of its window's range")
		sym.AssertEq(d[i].BaseLine, bl[i], "the base line is the middle of 26 candles' range")
		sym.AssertEq(d[i].LeadingSpanA, (cl[i]+bl[i])/2, "span A is halfway between conversion and base line")
		sym.AssertEq(d[i].LeadingSpanB, sb[i], "span B is the middle of its window's range")
		lg := 0.0
		if i >= lag {
			lg = c[i-lag]
		}
		sym.AssertEq(d[i].LaggingLine, lg, "the lagging line is the close, shifted")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		if i < conv {
			return utils.Hold
		}
		a, b := d[i], d[i-1]
		hi, lo := fmax(a.LeadingSpanA, a.LeadingSpanB), fmin(a.LeadingSpanA, a.LeadingSpanB)
		phi, plo := fmax(b.LeadingSpanA, b.LeadingSpanB), fmin(b.LeadingSpanA, b.LeadingSpanB)
		return side(c[i] > hi && c[i-1] < plo, c[i] < lo && c[i-1] > phi)
	})
}

func C31_Ichimoku() {
	conv, spanB, lag := sym.Range("conversion", 1, 2), sym.Range("span B", 1, 3), sym.Range("lag", 0, 2)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	ichimoku(it, oscillator.NewIchimokuCloud(it, conv, spanB, lag), conv, spanB, lag)
}

func C31_IchimokuDefault() {
	n := sym.Tier(63, 123)
	it := longItem(n, n-1)
	ichimoku(it, oscillator.NewDefaultIchimokuCloud(it), 20, 60, 120)
}

// ---- Awesome and projection oscillators ----

func C32_Awesome() {
	n := sym.Range("n", 1, sym.Tier(7, 9))
	it := okItem(n)
	awesome(it)
}

func C32_AwesomeLong() {
	n := sym.Tier(37, 42)
	awesome(longItem(n, 0, 3, n-2, n-1))
}

func awesome(it *klines.Item) {
	_, h, l, _, _ := columns(it)
	m := hl2(h, l)
	x := oscillator.NewAwesomeOscillator(it)
	d := x.GetData()
	w := subv(orSma(5, m), orSma(34, m))
	var v []float64
	sym.Assert(len(d) == len(m), "one entry per candle")
	for i := 0; i < len(m); i++ {
		sym.AssertEq(d[i].Value, w[i], "the 5-candle minus the 34-candle average of the median price")
		v = append(v, d[i].Value)
	}
	zeroCross(x.AnalysisSide(), v)
}

// projection restates the projection oscillator: the window's least-squares
// slopes (over x = 0, 1, 2, ...) project highs and lows, whose bands place the close. A single candle has no slope, so nothing is placed (0)
// while the window still holds the first one.
func projection(it *klines.Item, x *oscillator.ProjectionOscillator, p, smooth int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	mh, ml := orSlopes(p, h), orSlopes(p, l)
	var vh, vl []float64
	for i := 0; i < n; i++ {
		vh = append(vh, h[i]+mh[i]*float64(i))
		vl = append(vl, l[i]+ml[i]*float64(i))
	}
	pu, pl := orMax(p, vh), orMin(p, vl)
	var po []float64
	for i := 0; i < n; i++ {
		if i < p {
			po = append(po, 0)
			continue
		}
		po = append(po, 100*ratio(c[i]-pl[i], pu[i]-pl[i]))
	}
	sp := orEma(smooth, po)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Po, po[i], "PO is the close's place between the projected bands, in percent")
		sym.AssertEq(d[i].Spo, sp[i], "SPO is the exponential average of PO")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side { return side(d[i].Po > d[i].Spo, d[i].Po < d[i].Spo) })
}

// orSlopes are the least-squares slopes of the windows of at most p values, 0
// for a single value.
func orSlopes(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		if w := win(v, i, p); len(w) > 1 {
			r[i], _ = orLine(w)
		}
	}
	return r
}

func C32_Projection() {
	p, s := sym.Range("period", 2, 3), sym.Range("smooth", 1, 2)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	projection(it, oscillator.NewProjectionOscillator(it, p, s), p, s)
}

func C32_ProjectionDefault() {
	n := sym.Tier(16, 18)
	it := longItem(n, n-1)
	projection(it, oscillator.NewDefaultProjectionOscillator(it), 13, 3)
}
