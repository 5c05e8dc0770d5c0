package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
	"github.com/idoall/stockindicator/volume"
	"github.com/idoall/stockindicator/zzverif/sym"
)

func price(name string, i int) float64 { return sym.FloatIn(name, i, 1e-6, 1e12) }

// near: the same double, or the same but for rounding.
func near(a, b float64, what string) {
	sym.Assert(sym.Eq(a, b) || math.Abs(a-b) <= 1e-5*(1+math.Abs(a)+math.Abs(b)), what)
}

// a quiet market, a moving one, one without volume, one of low prices
var tails = [][][5]float64{
	{{10.1, 10.1, 10.1, 10.1, 3}},
	{{10.1, 10.7, 9.9, 10.3, 3}, {10.3, 10.4, 9.7, 9.8, 1.5}, {9.8, 10.9, 9.8, 10.6, 7.25}, {10.6, 10.65, 10.2, 10.3, 2}},
	{{0.31, 0.33, 0.3, 0.32, 0}, {0.32, 0.35, 0.31, 0.34, 0.7}, {0.34, 0.34, 0.29, 0.3, 0}, {0.3, 0.36, 0.3, 0.35, 0.1}},
}

// pastAndTail: pre candles of any prices up to 1e12 and volumes up to 1e15, then
// n candles that are given; and the same n candles alone.
func pastAndTail(pre, n int) (*klines.Item, *klines.Item) {
	t := tails[sym.Range("tail", 0, len(tails)-1)]
	all := &klines.Item{Exchange: "ex", Interval: klines.OneMin, Symbol: "s", Code: "c"}
	alone := &klines.Item{Exchange: "ex", Interval: klines.OneMin, Symbol: "s", Code: "c"}
	for i := 0; i < pre; i++ {
		c := &klines.Candle{
			Open: price("open", i), High: price("high", i), Low: price("low", i), Close: price("close", i),
			Volume: sym.FloatIn("vol", i, 0, 1e15), TimeUnix: t0 + 60*int64(i),
		}
		sym.Assume(c.Low <= c.Open && c.Open <= c.High)
		sym.Assume(c.Low <= c.Close && c.Close <= c.High)
		all.Candles = append(all.Candles, c)
	}
	for i := 0; i < n; i++ {
		v := t[i%len(t)]
		for k := 0; k < 2; k++ {
			c := &klines.Candle{Open: v[0], High: v[1], Low: v[2], Close: v[3], Volume: v[4], TimeUnix: t0 + 60*int64(pre+i)}
			if k == 0 {
				all.Candles = append(all.Candles, c)
			} else {
				alone.Candles = append(alone.Candles, c)
			}
		}
	}
	return all, alone
}

// C48_Series_FP: the window functions on series.
func C48_Series_FP() {
	p := sym.Range("period", 1, sym.Tier(3, 4))
	t := tails[sym.Range("tail", 0, len(tails)-1)]
	n := sym.Range("past", 1, sym.Tier(2, 3))
	m := p + 1
	var all, alone []float64
	for i := 0; i < n; i++ {
		x := sym.FloatIn("x", i, -1e15, 1e15)
		all = append(all, x)
	}
	for i := 0; i < m; i++ {
		all = append(all, t[i%len(t)][3])
		alone = append(alone, t[i%len(t)][3])
	}
	for k, f := range []func(v []float64) []float64{
		func(v []float64) []float64 { return ta.Sum(p, v) },
		func(v []float64) []float64 { return ta.Sma(p, v) },
		func(v []float64) []float64 { return ta.MA(v, p) },
		func(v []float64) []float64 { return ta.Wma(p, v) },
		func(v []float64) []float64 { return ta.Variance(v, p) },
		func(v []float64) []float64 { return ta.StdDev(v, p, 1) },
		func(v []float64) []float64 { return ta.Dev(v, p) },
		func(v []float64) []float64 { return ta.Max(p, v) },
		func(v []float64) []float64 { return ta.Min(p, v) },
		func(v []float64) []float64 { return ta.CCI(v, p, p) },
		func(v []float64) []float64 { return ta.AiCoinCCI(v, p, 0.015) },
	} {
		a, b := f(all), f(alone)
		for i := p - 1; i < m; i++ {
			near(a[n+i], b[i], []string{"Sum", "Sma", "MA", "Wma", "Variance", "StdDev", "Dev", "Max", "Min", "CCI", "AiCoinCCI"}[k]+" depends on its window only")
		}
	}
	if p > 1 {
		for k, f := range []func(v []float64) []float64{
			func(v []float64) []float64 { return ta.LinearReg(v, p) },
			func(v []float64) []float64 { return ta.LinearRegSlope(v, p) },
			func(v []float64) []float64 { return ta.LinearRegIntercept(v, p) },
		} {
			a, b := f(all), f(alone)
			for i := p - 1; i < m; i++ {
				near(a[n+i], b[i], []string{"LinearReg", "LinearRegSlope", "LinearRegIntercept"}[k]+" depends on its window only")
			}
		}
		var xa, xb []float64
		for i := 0; i < n+m; i++ {
			xa = append(xa, float64(i))
			if i >= n {
				xb = append(xb, float64(i))
			}
		}
		sa, ia := utils.MovingLeastSquare(p, xa, all)
		sb, ib := utils.MovingLeastSquare(p, xb, alone)
		ra := utils.MovingLinearRegressionUsingLeastSquare(p, xa, all)
		for i := p - 1; i < m; i++ {
			near(sa[n+i], sb[i], "the moving slope depends on its window only")
			near(ia[n+i], ib[i], "the moving intercept depends on its window only")
			near(ra[n+i], sb[i]*xb[i]+ib[i], "the moving regression depends on its window only")
		}
	}
}

// C48_Bands_FP: Bollinger bands.
func C48_Bands_FP() {
	p := sym.Range("period", 1, 3)
	n, m := sym.Range("past", 1, sym.Tier(2, 3)), p+2
	all, alone := pastAndTail(n, m)
	ba, bb := channel.NewBoll(all, p, 2).GetData(), channel.NewBoll(alone, p, 2).GetData()
	for i := p - 1; i < m; i++ {
		near(ba[n+i].Upper, bb[i].Upper, "the upper Bollinger band depends on its window only")
		near(ba[n+i].Middle, bb[i].Middle, "the middle Bollinger band depends on its window only")
		near(ba[n+i].Lower, bb[i].Lower, "the lower Bollinger band depends on its window only")
		near(ba[n+i].MD, bb[i].MD, "the Bollinger deviation depends on its window only")
	}
}

// C48_Extremes_FP: Donchian channel, Ulcer index.
func C48_Extremes_FP() {
	p := sym.Range("period", 1, 2)
	n, m := sym.Range("past", 1, sym.Tier(1, 2)), 2*p
	all, alone := pastAndTail(n, m)
	da, db := channel.NewDonchianChannel(all, p).GetData(), channel.NewDonchianChannel(alone, p).GetData()
	ua, ub := channel.NewUlcerIndex(all, p).GetData(), channel.NewUlcerIndex(alone, p).GetData()
	for i := p - 1; i < m; i++ {
		near(da[n+i].Upper, db[i].Upper, "the upper Donchian band depends on its window only")
		near(da[n+i].Middle, db[i].Middle, "the middle of the Donchian channel depends on its window only")
		near(da[n+i].Lower, db[i].Lower, "the lower Donchian band depends on its window only")
	}
	for i := 2*p - 2; i < m; i++ {
		near(ua[n+i].Value, ub[i].Value, "the Ulcer index depends on its windows only")
	}
}

// C48_Oscillators_FP: stochastic, Williams %R, Awesome.
func C48_Oscillators_FP() {
	p := sym.Range("period", 1, 2)
	n, m := sym.Range("past", 1, sym.Tier(1, 2)), p+2
	all, alone := pastAndTail(n, m)
	sa, sb := oscillator.NewStochasticOscillator(all, p).GetData(), oscillator.NewStochasticOscillator(alone, p).GetData()
	wa, wb := oscillator.NewWilliamsR(all, p).GetData(), oscillator.NewWilliamsR(alone, p).GetData()
	for i := p - 1; i < m; i++ {
		near(sa[n+i].K, sb[i].K, "stochastic K depends on its window only")
		near(wa[n+i].Value, wb[i].Value, "Williams %R depends on its window only")
		if i >= p+1 {
			near(sa[n+i].D, sb[i].D, "stochastic D depends on its window only")
		}
	}
}

// C48_Trend_FP: CCI, Vortex, averages.
func C48_Trend_FP() {
	p := sym.Range("period", 1, 3)
	n, m := sym.Range("past", 1, sym.Tier(1, 2)), p+2
	all, alone := pastAndTail(n, m)
	ca, cb := trend.NewCci(all, p, p).GetData(), trend.NewCci(alone, p, p).GetData()
	ia, ib := trend.NewAiCoinCCI(all, p).GetData(), trend.NewAiCoinCCI(alone, p).GetData()
	va, vb := trend.NewVortex(all, p).GetData(), trend.NewVortex(alone, p).GetData()
	ma, mb := trend.NewMa(all, p).GetData(), trend.NewMa(alone, p).GetData()
	sa, sb := trend.NewSma(all, p).GetData(), trend.NewSma(alone, p).GetData()
	for i := p - 1; i < m; i++ {
		near(ca[n+i].Value, cb[i].Value, "CCI depends on its window only")
		near(ia[n+i].Value, ib[i].Value, "AiCoin's CCI depends on its window only")
		near(ma[n+i].Value, mb[i].Value, "MA depends on its window only")
		near(sa[n+i].Value, sb[i].Value, "SMA depends on its window only")
		if i >= p {
			near(va[n+i].PlusVi, vb[i].PlusVi, "VI+ depends on its window only")
			near(va[n+i].MinusVi, vb[i].MinusVi, "VI- depends on its window only")
		}
	}
}

// C48_Volume_FP: the volume indicators with a window.
func C48_Volume_FP() {
	p := sym.Range("period", 1, 3)
	n, m := sym.Range("past", 1, sym.Tier(1, 2)), p+2
	all, alone := pastAndTail(n, m)
	ca, cb := volume.NewChaikinMoneyFlow(all, p).GetData(), volume.NewChaikinMoneyFlow(alone, p).GetData()
	ea, eb := volume.NewEaseOfMovement(all, p).GetData(), volume.NewEaseOfMovement(alone, p).GetData()
	fa, fb := volume.NewMoneyFlowIndex(all, p).GetData(), volume.NewMoneyFlowIndex(alone, p).GetData()
	wa, wb := volume.NewVwma(all, p).GetData(), volume.NewVwma(alone, p).GetData()
	for i := p - 1; i < m; i++ {
		near(ca[n+i].Value, cb[i].Value, "CMF depends on its window only")
		near(wa[n+i].Value, wb[i].Value, "VWMA depends on its window only")
		if i >= p {
			near(ea[n+i].Value, eb[i].Value, "EMV depends on its window only")
			near(fa[n+i].Value, fb[i].Value, "MFI depends on its window only")
		}
	}
}

// C48_Flat_FP: a market that stands still, at any price: exact neutral values.
func C48_Flat_FP() {
	p := sym.Range("period", 1, 3)
	n := p + 2
	x, v := price("price", 0), sym.FloatIn("volume", 0, 0, 1e15)
	it := &klines.Item{Exchange: "ex", Interval: klines.OneMin, Symbol: "s", Code: "c"}
	for i := 0; i < n; i++ {
		it.Candles = append(it.Candles, &klines.Candle{Open: x, High: x, Low: x, Close: x, Volume: v, TimeUnix: t0 + 60*int64(i)})
	}
	bo := channel.NewBoll(it, p, 2).GetData()
	cc := trend.NewCci(it, p, p).GetData()
	ai := trend.NewAiCoinCCI(it, p).GetData()
	sm := trend.NewSma(it, p).GetData()
	vx := trend.NewVortex(it, p).GetData()
	ao := oscillator.NewAwesomeOscillator(it).GetData()
	em := volume.NewEaseOfMovement(it, p).GetData()
	cm := volume.NewChaikinMoneyFlow(it, p).GetData()
	is := func(a, b float64, what string) { sym.Assert(a == b, what) }
	for i := 0; i < n; i++ {
		is(sm[i].Value, x, "the average of a flat market is its price")
		is(cc[i].Value, 0, "CCI of a flat market is 0")
		is(ai[i].Value, 0, "AiCoin's CCI of a flat market is 0")
		is(vx[i].PlusVi, 0, "VI+ of a flat market is 0")
		is(vx[i].MinusVi, 0, "VI- of a flat market is 0")
		is(ao[i].Value, 0, "the Awesome oscillator of a flat market is 0")
		is(em[i].Value, 0, "EMV of a flat market is 0")
		is(cm[i].Value, 0, "CMF of a flat market is 0")
		is(bo[i].MD, 0, "a flat market does not deviate")
		if i >= p-1 {
			is(bo[i].Upper, x, "the upper band of a flat market is its price")
			is(bo[i].Lower, x, "the lower band of a flat market is its price")
		}
	}
	xs, ys := make([]float64, n), make([]float64, n)
	for i := range ys {
		xs[i], ys[i] = float64(i), x
	}
	sl, _ := utils.MovingLeastSquare(p, xs, ys)
	sd := ta.StdDev(ys, p, 1)
	for i := 1; i < n; i++ {
		if p > 1 {
			is(sl[i], 0, "a flat market has slope 0")
		}
		is(sd[i], 0, "a flat market does not deviate")
	}
}
