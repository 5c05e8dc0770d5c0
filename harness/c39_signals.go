package zzverif

import (
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// ---- Breakout probability ----

// breakout restates it: after rising (falling) candles, how often the next one
// exceeded the previous high, or fell below the previous low, by k steps.
func breakout(it *klines.Item, x *trend.BreakoutProbability, step float64, lines int) {
	n := len(it.Candles)
	o, h, l, c, _ := columns(it)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	var hits, per [5][2][2]float64 // line, colour before (rising, falling), direction (up, down)
	var seen [2]float64
	win, loss := 0.0, 0.0
	for i := 1; i < n; i++ {
		st := c[i] * step / 100
		col := 2
		if c[i-1] > o[i-1] {
			col = 0
		}
		if c[i-1] < o[i-1] {
			col = 1
		}
		for g := 0; g < 2; g++ {
			if g != col {
				continue
			}
			seen[g] += 1
			for k := 0; k < 5; k++ {
				if h[i] > h[i-1]+st*float64(k) {
					hits[k][g][0] += 1
					per[k][g][0] = 100 * hits[k][g][0] / seen[g]
				}
				if l[i] < l[i-1]-st*float64(k) {
					hits[k][g][1] += 1
					per[k][g][1] = 100 * hits[k][g][1] / seen[g]
				}
			}
		}
		// the first candle has no list
		sym.Assert(len(d[i].List) == 10, "five lines above and five below")
		for k := 0; k < 5; k++ {
			var up, down [3]float64
			for g := 0; g < 2; g++ {
				if g == col && k < lines && fmin(per[k][g][0], per[k][g][1]) > 0 {
					up = [3]float64{h[i] + st*float64(k), per[k][g][0], 1}
					down = [3]float64{l[i] - st*float64(k), per[k][g][1], 0}
				}
			}
			a, b := d[i].List[k], d[i].List[5+k]
			sym.AssertEq(a.Price, up[0], "the upper line's price")
			sym.AssertEq(a.Per, up[1], "the upper line's probability")
			sym.Assert(a.Up == (up[2] == 1), "the upper line points up")
			sym.AssertEq(b.Price, down[0], "the lower line's price")
			sym.AssertEq(b.Per, down[1], "the lower line's probability")
			sym.Assert(!b.Up, "the lower line points down")
		}
		q := 1
		if col == 0 {
			q = 0
		}
		right := l[i] <= l[i-1]
		for g := 0; g < 2; g++ {
			if g == q && per[0][g][0] >= per[0][g][1] {
				right = h[i] >= h[i-1]
			}
		}
		if right {
			win += 1
		} else {
			loss += 1
		}
		sym.AssertEq(d[i].Win, win, "the likelier breakout came true")
		sym.AssertEq(d[i].Loss, loss, "the likelier breakout failed")
	}
}

func C39_Breakout() {
	lines := []int{0, 1, 3, 5, 7}[sym.Range("lines#", 0, 4)]
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	for i := 0; i < len(it.Candles); i++ {
		sym.Assume(it.Candles[i].Low < it.Candles[i].High)
	}
	if sym.Range("from OHLC", 0, 1) == 1 {
		breakout(it, trend.NewBreakoutProbabilityOHLC(it.GetOHLC(), 2.5, lines), 2.5, imax(1, imin(5, lines)))
	} else {
		breakout(it, trend.NewBreakoutProbability(it, 2.5, lines), 2.5, imax(1, imin(5, lines)))
	}
}

func C39_BreakoutDefault() {
	n := sym.Tier(20, 40)
	it := longItem(n, n-2, n-1)
	breakout(it, trend.NewDefaultBreakoutProbability(it), 1.2, 5)
}

// ---- Reversal signals and Trader XO ----

func reversal(it *klines.Item) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	d := trend.NewReversalSignals(it).GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	down, up := 0, 0
	for i := 0; i < n; i++ {
		want := utils.Hold
		if i >= 4 {
			if c[i] < c[i-4] {
				down, up = down+1, 0
			} else {
				down, up = 0, up+1
			}
			lo, hi := fmin(l[i], l[i-1]), fmax(h[i], h[i-1])
			want = side(down == 9 && lo <= l[i-2] && lo <= l[i-3], up == 9 && hi >= h[i-2] && hi >= h[i-3])
		}
		sym.Assert(d[i].Side == want, "the ninth candle of a setup signals when its extreme is perfected")
	}
}

func C40_Reversal() { reversal(okItem(sym.Range("n", 4, sym.Tier(15, 18)))) }

func C40_ReversalLong() {
	n := sym.Tier(40, 60)
	it := longItem(n, n-1, n-5, n-9, n-13)
	reversal(it)
}

func xo(it *klines.Item, x *trend.TraderXO, f, s int) {
	n := len(it.Candles)
	c := closes(it)
	fast, slow := orEma(f, c), orEma(s, c)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Fast, fast[i], "the fast exponential average")
		sym.AssertEq(d[i].Slow, slow[i], "the slow exponential average")
	}
	sd := x.AnalysisSide()
	sym.Assert(len(sd.Data) == n, "one signal per candle")
	last := utils.Hold
	for i := 0; i < n; i++ {
		want := utils.Hold
		if i > 0 {
			now := side(d[i].Fast > d[i].Slow, d[i].Fast < d[i].Slow)
			if now != utils.Hold && now != last {
				want, last = now, now
			}
		}
		sym.Assert(sd.Data[i] == want, "a signal is given when the averages change order, and only then")
	}
	a, b := x.GetValues()
	eqSeries(a, fast, "the bare values are those of the data")
	eqSeries(b, slow, "the bare values are those of the data")
}

func C40_TraderXO() {
	f, s := sym.Range("fast", 1, 3), sym.Range("slow", 2, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(6, 8)))
	if sym.Range("from OHLC", 0, 1) == 1 {
		xo(it, trend.NewTraderXOOHLC(it.GetOHLC(), f, s), f, s)
	} else {
		xo(it, trend.NewTraderXO(it, f, s), f, s)
	}
}

func C40_TraderXODefault() {
	n := sym.Tier(30, 60)
	it := longItem(n, 3, n-2, n-1)
	xo(it, trend.NewDefaultTraderXO(it), 12, 25)
}

// ---- Linear regression candles ----

func orLinReg(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := p - 1; i < len(v); i++ {
		m, b := orLine(v[i-p+1 : i+1])
		r[i] = b + m*float64(p-1)
	}
	return r
}

func lrc(it *klines.Item, x *trend.LinearRegressionCandles, sig, p int, sma bool) {
	n := len(it.Candles)
	o, h, l, c, _ := columns(it)
	o, h, l, c = orLinReg(p, o), orLinReg(p, h), orLinReg(p, l), orLinReg(p, c)
	s := orEma(sig, c)
	if sma {
		s = orSma(sig, c)
	}
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].Open, o[i], "the open of the regression candle")
		sym.AssertEq(d[i].High, h[i], "the high of the regression candle")
		sym.AssertEq(d[i].Low, l[i], "the low of the regression candle")
		sym.AssertEq(d[i].Close, c[i], "the close of the regression candle")
		sym.AssertEq(d[i].Signal, s[i], "the signal averages the regression closes")
	}
	eqSeries(x.GetValues(), s, "the bare values are the signal")
}

func C42_RegressionCandles() {
	p, sig := sym.Range("length", 2, 4), sym.Range("signal", 1, 3)
	sma := sym.Range("sma", 0, 1) == 1
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	if sym.Range("from OHLC", 0, 1) == 1 {
		lrc(it, trend.NewLinearRegressionCandlesOHLC(it.GetOHLC(), sig, p, sma), sig, p, sma)
	} else {
		lrc(it, trend.NewLinearRegressionCandles(it, sig, p, sma), sig, p, sma)
	}
}

func C42_RegressionCandlesDefault() {
	n := sym.Tier(20, 40)
	it := longItem(n, 4, n-1)
	lrc(it, trend.NewDefaultLinearRegressionCandles(it), 7, 11, true)
}
