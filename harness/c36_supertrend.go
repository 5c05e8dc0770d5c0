package zzverif

import (
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// orAtr is the average true range of package ta: 0 before a full period has
// passed after the first candle.
func orAtr(p int, h, l, c []float64) []float64 {
	tr := orTR(h, l, c)
	if p == 1 {
		return tr
	}
	r := orRma(p, tr)
	for i := 0; i < len(r) && i < p; i++ {
		r[i] = 0
	}
	if len(r) <= p {
		for i := 0; i < len(r); i++ {
			r[i] = 0
		}
	}
	return r
}

// ---- SuperTrend ----

// superTrend restates it: bands of mult ranges around the median price; the
// lower only rises while the previous close is above it, the upper only falls
// while it is below, and the trend turns when the close leaves the previous band.
func superTrend(it *klines.Item, x *trend.SuperTrend, p, mult int, wilder bool) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	atr := orAtr(p, h, l, c)
	if !wilder {
		atr = orSma(p, orTR(h, l, c))
	}
	m := hl2(h, l)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	lo, hi, up := 0.0, 0.0, true
	for i := 0; i < n; i++ {
		beginUp, beginDn := 0.0, 0.0
		if i > 0 {
			plo, phi, pup := lo, hi, up
			lo, hi = m[i]-float64(mult)*atr[i], m[i]+float64(mult)*atr[i]
			if c[i-1] > plo {
				lo = fmax(lo, plo)
			}
			if c[i-1] < phi {
				hi = fmin(hi, phi)
			}
			if pup && c[i] < plo {
				up = false
				beginDn = hi
			}
			if !pup && c[i] > phi {
				up = true
				beginUp = lo
			}
		}
		sym.AssertEq(d[i].UpTrend, lo, "the lower band only rises while the close holds above it")
		sym.AssertEq(d[i].DownTrend, hi, "the upper band only falls while the close holds below it")
		sym.AssertEq(d[i].UpTrendBegin, beginUp, "an up trend begins where the close breaks the previous upper band")
		sym.AssertEq(d[i].DownTrendBegin, beginDn, "a down trend begins where the close breaks the previous lower band")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		return side(d[i].UpTrendBegin != 0, d[i].DownTrendBegin != 0)
	})
	u, w := x.GetValues()
	sym.Assert(len(u) == n, "one value per candle")
	sym.Assert(len(w) == n, "one value per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(u[i], d[i].UpTrend, "the bare values are those of the data")
		sym.AssertEq(w[i], d[i].DownTrend, "the bare values are those of the data")
	}
}

func C36_SuperTrend() {
	p, m := sym.Range("period", 1, 2), sym.Range("multiplier", 1, 3)
	wilder := sym.Range("wilder", 0, 1) == 1
	it := okItem(sym.Range("n", 1, sym.Tier(6, 8)))
	if sym.Range("from OHLC", 0, 1) == 1 {
		superTrend(it, trend.NewSuperTrendOHLC(it.GetOHLC(), it.HL2(), p, m, wilder), p, m, wilder)
	} else {
		superTrend(it, trend.NewSuperTrend(it, p, m, wilder), p, m, wilder)
	}
}

func C36_SuperTrendDefault() {
	n := sym.Tier(30, 60)
	it := longItem(n, n-2, n-1)
	superTrend(it, trend.NewDefaultSuperTrend(it), 10, 3, true)
}

// ---- Pivot point SuperTrend ----

func pivotSuperTrend(it *klines.Item, x *trend.PivotPointSuperTrend, p, ap int, f float64) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	atr := orAtr(ap, h, l, c)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	center, lo, hi, tr := 0.0, 0.0, 0.0, 0
	for i := 0; i < n; i++ {
		a, b, ba, bb := 0.0, 0.0, 0.0, 0.0
		if i > 0 {
			pp := 0.0
			if i >= 2*p {
				if l[i-p] == minOf(l[i-2*p:i+1]) {
					pp = l[i-p]
				}
				if h[i-p] == maxOf(h[i-2*p:i+1]) {
					pp = h[i-p]
				}
			}
			if pp != 0 {
				if center == 0 {
					center = pp
				} else {
					center = (2*center + pp) / 3
				}
			}
			plo, phi, ptr := lo, hi, tr
			lo, hi = center-f*atr[i], center+f*atr[i]
			if c[i-1] > plo {
				lo = fmax(lo, plo)
			}
			if c[i-1] < phi {
				hi = fmin(hi, phi)
			}
			if c[i] < plo {
				tr = -1
			}
			if c[i] > phi {
				tr = 1
			}
			if tr == 1 && ptr == 1 {
				a = lo
			}
			if tr == 1 && ptr == -1 {
				ba = lo
			}
			if tr == -1 && ptr == -1 {
				b = hi
			}
			if tr == -1 && ptr == 1 {
				bb = hi
			}
		}
		sym.AssertEq(d[i].UpTrend, a, "in an up trend the stop is the lower band")
		sym.AssertEq(d[i].DownTrend, b, "in a down trend the stop is the upper band")
		sym.AssertEq(d[i].UpTrendBegin, ba, "an up trend begins where the close breaks the previous upper band")
		sym.AssertEq(d[i].DownTrendBegin, bb, "a down trend begins where the close breaks the previous lower band")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		return side(d[i].UpTrendBegin != 0, d[i].DownTrendBegin != 0)
	})
	u, w := x.GetValues()
	sym.Assert(len(u) == n, "one value per candle")
	sym.Assert(len(w) == n, "one value per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(u[i], d[i].UpTrend, "the bare values are those of the data")
		sym.AssertEq(w[i], d[i].DownTrend, "the bare values are those of the data")
	}
}

func C37_PivotSuperTrend() {
	p, ap := sym.Range("period", 1, 2), sym.Range("atr period", 1, 2)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 7)))
	if sym.Range("from OHLC", 0, 1) == 1 {
		pivotSuperTrend(it, trend.NewPivotPointSuperTrendOHLC(it.GetOHLC(), p, ap, 1.5), p, ap, 1.5)
	} else {
		pivotSuperTrend(it, trend.NewPivotPointSuperTrend(it, p, ap, 1.5), p, ap, 1.5)
	}
}

func C37_PivotSuperTrendDefault() {
	n := sym.Tier(30, 60)
	it := longItem(n, n-5, n-1)
	pivotSuperTrend(it, trend.NewDefaultPivotPointSuperTrend(it), 3, 8, 2.8)
}

// ---- UT Bot ----

func utbot(it *klines.Item, x *trend.UTBot, p, ap int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	atr := orAtr(ap, h, l, c)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	stop := 0.0
	for i := 0; i < n; i++ {
		if i > 0 {
			loss, s := float64(p)*atr[i], stop
			if c[i] > s {
				stop = c[i] - loss
				if c[i-1] > s {
					stop = fmax(s, stop)
				}
			} else {
				stop = c[i] + loss
				if c[i] < s && c[i-1] < s {
					stop = fmin(s, stop)
				}
			}
		}
		sym.AssertEq(d[i].Close, c[i], "the entry carries its candle's close")
		sym.AssertEq(d[i].Value, stop, "the stop trails the close and only moves its way until crossed")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		return crossSide(d[i].Close, d[i].Value, d[i-1].Close, d[i-1].Value)
	})
	var v []float64
	for i := 0; i < n; i++ {
		v = append(v, d[i].Value)
	}
	eqSeries(x.GetValues(), v, "the bare values are those of the data")
}

func C38_UTBot() {
	p, ap := sym.Range("period", 1, 3), sym.Range("atr period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(7, 9)))
	if sym.Range("from OHLC", 0, 1) == 1 {
		utbot(it, trend.NewUTBotOHLC(it.GetOHLC(), p, ap), p, ap)
	} else {
		utbot(it, trend.NewUTBot(it, p, ap), p, ap)
	}
}

func C38_UTBotDefault() {
	n := sym.Tier(30, 60)
	it := longItem(n, 4, n-2, n-1)
	utbot(it, trend.NewDefaultUTBot(it), 2, 1)
}

// ---- ATR and the chandelier exit ----

func atrInd(it *klines.Item, x *trend.Atr, p, q int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	tr := orWilderTR(h, l, c)
	atr := orRma(p, tr)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].TR, tr[i], "the true range covers the candle and the gap to the previous close")
		sym.AssertEq(d[i].Atr, atr[i], "ATR is the running average of the true range")
	}
	a, b := x.GetValues()
	eqSeries(a, tr, "the bare values are those of the data")
	eqSeries(b, atr, "the bare values are those of the data")
	for _, w := range []int{q, 2, q} { // asked for another window, and again for the first
		long, short := x.ChandelierExit(w)
		mx, mn := orMax(w, h), orMin(w, l)
		for i := 0; i < n; i++ {
			mx[i] -= 3 * atr[i]
			mn[i] += 3 * atr[i]
		}
		eqSeries(long, mx, "the long exit is 3 ATR below the highest high")
		eqSeries(short, mn, "the short exit is 3 ATR above the lowest low")
	}
}

func C43_Atr() {
	p, q := sym.Range("period", 1, 3), sym.Range("exit period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	atrInd(it, trend.NewAtr(it, p), p, q)
}

func C43_AtrDefault() {
	n := sym.Tier(28, 50)
	it := longItem(n, n-1)
	atrInd(it, trend.NewDefaultAtr(it), 14, 22)
}
