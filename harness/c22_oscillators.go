package zzverif

import (
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

func closes(it *klines.Item) []float64 { _, _, _, c, _ := columns(it); return c }

// ---- MACD ----

func macd(it *klines.Item, x *trend.Macd, short, signal, long int) {
	n := len(it.Candles)
	d := x.GetData()
	c := closes(it)
	dif := subv(orEma(short, c), orEma(long, c))
	dea := orEma(signal, dif)
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].DIF, dif[i], "DIF is the short minus the long exponential average")
		sym.AssertEq(d[i].DEA, dea[i], "DEA is the exponential average of DIF")
		sym.AssertEq(d[i].Macd, 2*(dif[i]-dea[i]), "MACD is twice the distance of DIF from DEA")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		a, b := d[i], d[i-1]
		return side(a.DIF > 0 && a.DEA > 0 && a.DIF > a.DEA && b.DIF < b.DEA, a.DIF < 0 && a.DEA < 0 && a.DIF < a.DEA && b.DIF > b.DEA)
	})
}

func C22_Macd() {
	s, g, l := sym.Range("short", 1, 3), sym.Range("signal", 1, 3), sym.Range("long", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 6)))
	macd(it, trend.NewMacd(it, s, g, l), s, g, l)
}

func C22_MacdDefault() {
	n := sym.Tier(8, 16)
	it := longItem(n, 1, n-2, n-1)
	macd(it, trend.NewDefaultMacd(it), 12, 9, 26)
}

// ---- oscillators around zero: APO, AO (C32), Chaikin ----

func zeroCross(s utils.SideData, v []float64) {
	checkSides(s, len(v), func(i int) utils.Side { return crossSide(v[i], 0, v[i-1], 0) })
}

func C22_Apo() {
	it := longItem(sym.Range("n", 1, sym.Tier(6, 12)), 0, 1, 2, 3, 4, 5)
	x := oscillator.NewAbsolutePriceOscillator(it)
	f, s := sym.Range("fast", 0, 3), sym.Range("slow", 1, 4)
	if f == 0 {
		f, s = 14, 30 // as constructed
	} else {
		x.FastPeriod, x.SlowPeriod = f, s
	}
	c := closes(it)
	v := col(apoRows(x), 0)
	eqSeries(v, subv(orEma(f, c), orEma(s, c)), "APO is the fast minus the slow exponential average")
	zeroCross(x.AnalysisSide(), v)
}

func apoRows(x *oscillator.AbsolutePriceOscillator) []row {
	var r []row
	d := x.GetData()
	for i := 0; i < len(d); i++ {
		r = append(r, row{at: d[i].Time, vals: []float64{d[i].Value}})
	}
	return r
}

// orAd is the accumulation/distribution line; a candle without range adds nothing.
func orAd(h, l, c, v []float64) []float64 {
	r := make([]float64, len(c))
	t := 0.0
	for i := 0; i < len(c); i++ {
		if h[i] > l[i] {
			t += v[i] * (2*c[i] - l[i] - h[i]) / (h[i] - l[i])
		}
		r[i] = t
	}
	return r
}

func chaikin(it *klines.Item, x *oscillator.ChaikinOscillator, f, s int) {
	n := len(it.Candles)
	_, h, l, c, v := columns(it)
	ad := orAd(h, l, c, v)
	want := subv(orEma(f, ad), orEma(s, ad))
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	var got []float64
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].AD, ad[i], "AD is the accumulation/distribution line")
		sym.AssertEq(d[i].Value, want[i], "the fast minus the slow exponential average of AD")
		got = append(got, d[i].Value)
	}
	zeroCross(x.AnalysisSide(), got)
}

func C22_Chaikin() {
	f, s := sym.Range("fast", 1, 2), sym.Range("slow", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(3, 4)))
	chaikin(it, oscillator.NewChaikinOscillator(it, f, s), f, s)
}

func C22_ChaikinDefault() {
	n := sym.Tier(8, 14)
	it := longItem(n, 1, n-1)
	chaikin(it, oscillator.NewDefaultChaikinOscillator(it), 3, 10)
}

func ppo(it *klines.Item, x *oscillator.PercentagePriceOscillator, f, s, g int) {
	n := len(it.Candles)
	c := closes(it)
	fe, se := orEma(f, c), orEma(s, c)
	var p []float64
	for i := 0; i < n; i++ {
		p = append(p, 100*(fe[i]-se[i])/se[i])
	}
	sg := orEma(g, p)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].PPO, p[i], "PPO is the distance of the averages in percent of the slow one")
		sym.AssertEq(d[i].Signal, sg[i], "Signal is the exponential average of PPO")
		sym.AssertEq(d[i].Histogram, p[i]-sg[i], "Histogram is PPO minus Signal")
	}
	checkSides(x.AnalysisSide(), n, func(i int) utils.Side {
		return crossSide(d[i].PPO, d[i].Signal, d[i-1].PPO, d[i-1].Signal)
	})
}

func C22_Ppo() {
	f, s, g := sym.Range("fast", 1, 2), sym.Range("slow", 1, 3), sym.Range("signal", 1, 2)
	it := okItem(sym.Range("n", 1, sym.Tier(3, 4)))
	ppo(it, oscillator.NewPercentagePriceOscillator(it, f, s, g), f, s, g)
}

func C22_PpoDefault() {
	n := sym.Tier(6, 12)
	it := longItem(n, n-1)
	ppo(it, oscillator.NewDefaultPercentagePriceOscillator(it), 12, 26, 9)
}

func vo(it *klines.Item, x *oscillator.VolumeOscillator, s, l int) {
	_, _, _, _, v := columns(it)
	se, le := orEma(s, v), orEma(l, v)
	d := x.GetData()
	sym.Assert(len(d) == len(v), "one entry per candle")
	for i := 0; i < len(v); i++ {
		sym.AssertEq(d[i].Value, 100*ratio(se[i]-le[i], le[i]), "the distance of the volume averages in percent of the long one")
	}
}

func C22_Vo() {
	s, l := sym.Range("short", 1, 3), sym.Range("long", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 6)))
	vo(it, oscillator.NewVolumeOscillator(it, s, l), s, l)
}

func C22_VoDefault() {
	n := sym.Tier(8, 16)
	it := longItem(n, 0, n-1)
	vo(it, oscillator.NewDefaultVolumeOscillator(it), 5, 10)
}
