package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/volume"
	"github.com/idoall/stockindicator/zzverif/sym"
)

func within(lo, v, hi float64, what string) {
	sym.AssertLe(lo, v, what)
	sym.AssertLe(v, hi, what)
}

// C47_Percent: indicators that are percentages or shares stay within them.
func C47_Percent() {
	p := sym.Range("period", 1, 3)
	n := sym.Range("n", 1, sym.Tier(4, 5))
	it := okItem(n)
	mf := volume.NewMoneyFlowIndex(it, p).GetData()
	wr := oscillator.NewWilliamsR(it, p).GetData()
	st := oscillator.NewStochasticOscillator(it, p).GetData()
	for i := 0; i < n; i++ {
		within(0, mf[i].Value, 100, "MFI is a percentage")
		within(-100, wr[i].Value, 0, "Williams %R lies between -100 and 0")
		within(0, st[i].K, 100, "stochastic K is a percentage")
		within(0, st[i].D, 100, "stochastic D is a percentage")
	}
}

// C47_MoneyFlow: CMF is a share of volume, signed.
func C47_MoneyFlow() {
	p := sym.Range("period", 1, 3)
	n := sym.Range("n", 1, sym.Tier(3, 4))
	it := okItem(n)
	cm := volume.NewChaikinMoneyFlow(it, p).GetData()
	for i := 0; i < n; i++ {
		within(-1, cm[i].Value, 1, "CMF lies between -1 and 1")
	}
}

// C47_Momentum: RSI and KDJ's K and D are percentages.
func C47_Momentum() {
	p := sym.Range("period", 1, 3)
	n := sym.Range("n", 1, sym.Tier(3, 4))
	it := okItem(n)
	kd := trend.NewKdj(it, p).GetData()
	rs := trend.NewRsi(it, p).GetData()
	for i := 0; i < n; i++ {
		within(0, kd[i].K, 100, "K is a percentage")
		within(0, kd[i].D, 100, "D is a percentage")
		within(0, rs[i].Value, 100, "RSI is a percentage")
	}
}

// C47_Probability: breakout probabilities are percentages, outcomes are counted.
func C47_Probability() {
	n := sym.Range("n", 1, sym.Tier(3, 4))
	it := okItem(n)
	bp := trend.NewBreakoutProbability(it, 1, 3).GetData()
	for i := 0; i < n; i++ {
		sym.AssertLe(0, bp[i].Win, "wins are counted")
		sym.AssertLe(0, bp[i].Loss, "losses are counted")
		sym.AssertEq(bp[i].Win+bp[i].Loss, float64(i), "every candle after the first wins or loses")
		for k := 0; k < len(bp[i].List); k++ {
			within(0, bp[i].List[k].Per, 100, "a probability is a percentage")
		}
	}
}

// C47_Directional: directional indices are percentages, Vortex is not negative.
func C47_Directional() {
	p := sym.Range("period", 1, 2)
	n := sym.Range("n", 1, sym.Tier(4, 5))
	it := okItem(n)
	ad := trend.NewAverageDirectionalIndex(it, p, p).GetData()
	vx := trend.NewVortex(it, p).GetData()
	for i := 0; i < n; i++ {
		within(0, ad[i].ADX, 100, "ADX is a percentage")
		sym.AssertLe(0, ad[i].DIPlus, "DI+ is not negative")
		sym.AssertLe(0, ad[i].DIMins, "DI- is not negative")
		sym.AssertLe(0, vx[i].PlusVi, "VI+ is not negative")
		sym.AssertLe(0, vx[i].MinusVi, "VI- is not negative")
	}
}

// C47_Bands: upper bands are above middles, middles above lower bands.
func C47_Bands() {
	p := sym.Range("period", 1, 3)
	n := sym.Range("n", 1, sym.Tier(4, 5))
	it := okItem(n)
	_, h, l, c, _ := columns(it)
	bo := channel.NewBoll(it, p, 2).GetData()
	do := channel.NewDonchianChannel(it, p).GetData()
	ke := channel.NewKeltnerChannel(it, p).GetData()
	ul := channel.NewUlcerIndex(it, p).GetData()
	at := trend.NewAtr(it, p).GetData()
	for i := 0; i < n; i++ {
		sym.AssertLe(bo[i].Lower, bo[i].Middle, "Bollinger bands enclose their middle")
		sym.AssertLe(bo[i].Middle, bo[i].Upper, "Bollinger bands enclose their middle")
		sym.AssertLe(do[i].Lower, c[i], "the Donchian channel encloses the close")
		sym.AssertLe(c[i], do[i].Upper, "the Donchian channel encloses the close")
		sym.AssertLe(do[i].Lower, do[i].Middle, "the Donchian channel encloses its middle")
		sym.AssertLe(do[i].Middle, do[i].Upper, "the Donchian channel encloses its middle")
		sym.AssertLe(ke[i].Lower, ke[i].Middle, "the Keltner channel encloses its middle")
		sym.AssertLe(ke[i].Middle, ke[i].Upper, "the Keltner channel encloses its middle")
		within(0, ul[i].Value, 100, "the Ulcer index is a percentage")
		sym.AssertLe(h[i]-l[i], at[i].TR, "the true range covers the candle")
		sym.AssertLe(0, at[i].Atr, "ATR is not negative")
	}
}

// C47_Averages: an average lies between the extremes of what it averages.
func C47_Averages() {
	p := sym.Range("period", 1, 3)
	n := sym.Range("n", 1, sym.Tier(5, 6))
	it := okItem(n)
	_, h, l, c, _ := columns(it)
	lo, hi := dup(c), dup(c)
	ll, hh := dup(l), dup(h)
	for i := 1; i < n; i++ {
		lo[i], hi[i] = fmin(lo[i-1], c[i]), fmax(hi[i-1], c[i])
		ll[i], hh[i] = fmin(ll[i-1], l[i]), fmax(hh[i-1], h[i])
	}
	sm := trend.NewSma(it, p).GetData()
	em := trend.NewEma(it, p).GetData()
	rm := trend.NewRma(it, p).GetData()
	ic := oscillator.NewIchimokuCloud(it, p, 3, 1).GetData()
	for i := 0; i < n; i++ {
		within(lo[i], sm[i].Value, hi[i], "the simple average lies between the closes")
		within(lo[i], em[i].Value, hi[i], "the exponential average lies between the closes")
		within(lo[i], rm[i].Value, hi[i], "the running average lies between the closes")
		within(ll[i], ic[i].ConversionLine, hh[i], "the conversion line lies between the prices")
		within(ll[i], ic[i].LeadingSpanA, hh[i], "span A lies between the prices")
	}
}

// C47_VolumeAverage: so does a volume-weighted one.
func C47_VolumeAverage() {
	p := sym.Range("period", 1, 3)
	n := sym.Range("n", 1, sym.Tier(3, 4))
	it := okItem(n)
	c := closes(it)
	vw := volume.NewVwma(it, p).GetData()
	for i := 0; i < n; i++ {
		if it.Candles[i].Volume > 0 {
			within(minOf(win(c, i, p)), vw[i].Value, maxOf(win(c, i, p)), "the volume-weighted average lies between the window's closes")
		}
	}
}

// C47_Trails: SuperTrend's bands never move away from the price while it holds.
func C47_Trails() {
	p := sym.Range("period", 1, 2)
	n := sym.Range("n", 2, sym.Tier(5, 7))
	it := okItem(n)
	c := closes(it)
	d := trend.NewSuperTrend(it, p, 2, true).GetData()
	u := trend.NewUTBot(it, 2, p).GetData()
	for i := 1; i < n; i++ {
		if c[i-1] > d[i-1].UpTrend {
			sym.AssertLe(d[i-1].UpTrend, d[i].UpTrend, "the lower band does not fall while the close holds above it")
		}
		if c[i-1] < d[i-1].DownTrend {
			sym.AssertLe(d[i].DownTrend, d[i-1].DownTrend, "the upper band does not rise while the close holds below it")
		}
		if c[i-1] > u[i-1].Value && c[i] > u[i-1].Value {
			sym.AssertLe(u[i-1].Value, u[i].Value, "the stop does not fall while the close holds above it")
		}
		if c[i-1] < u[i-1].Value && c[i] < u[i-1].Value {
			sym.AssertLe(u[i].Value, u[i-1].Value, "the stop does not rise while the close holds below it")
		}
	}
}

var _ klines.Item
