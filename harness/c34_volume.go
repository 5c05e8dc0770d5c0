package zzverif

import (
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/volume"
	"github.com/idoall/stockindicator/zzverif/sym"
)

func mulv(a, b []float64) []float64 {
	r := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		r[i] = a[i] * b[i]
	}
	return r
}

func ratios(a, b []float64) []float64 {
	r := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		r[i] = ratio(a[i], b[i])
	}
	return r
}

// change is the difference to the value before, 0 standing before the first.
func change(v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		r[i] = v[i]
		if i > 0 {
			r[i] = v[i] - v[i-1]
		}
	}
	return r
}

// ---- cumulative volume indices ----

func obv(it *klines.Item) {
	_, _, _, c, v := columns(it)
	d := volume.NewObv(it).GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	t := 0.0
	for i := 0; i < len(c); i++ {
		if i > 0 {
			if c[i] > c[i-1] {
				t += v[i]
			}
			if c[i] < c[i-1] {
				t -= v[i]
			}
		}
		sym.AssertEq(d[i].Value, t, "OBV adds the volume of rising and subtracts that of falling candles")
	}
}

func C34_Obv() { obv(okItem(sym.Range("n", 1, sym.Tier(5, 6)))) }

func C34_ObvLong() { obv(longItem(40, 0, 7, 38, 39)) }

func ad(it *klines.Item) {
	_, h, l, c, v := columns(it)
	x := volume.NewAccumulationDistribution(it)
	w := orAd(h, l, c, v)
	d := x.GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	for i := 0; i < len(c); i++ {
		sym.AssertEq(d[i].Value, w[i], "A/D adds up volume weighted by the close's place in its candle")
	}
	eqSeries(x.GetValues(), w, "the bare values are those of the data")
	eqSeries(volume.NewDefaultAccumulationDistribution(it).GetValues(), w, "the default agrees")
}

func C34_AccumulationDistribution() { ad(okItem(sym.Range("n", 1, sym.Tier(4, 5)))) }

func C34_AccumulationDistributionLong() { ad(longItem(40, 0, 7, 38, 39)) }

func nvi(it *klines.Item) {
	_, _, _, c, v := columns(it)
	x := volume.NewNegativeVolumeIndex(it).GetData()
	y := volume.NewDefaultNegativeVolumeIndex(it).GetData()
	sym.Assert(len(x) == len(c), "one entry per candle")
	sym.Assert(len(y) == len(c), "one entry per candle")
	t := 1000.0
	for i := 0; i < len(c); i++ {
		if i > 0 && v[i] <= v[i-1] {
			t = t * c[i] / c[i-1]
		}
		sym.AssertEq(x[i].Value, t, "NVI starts at 1000 and follows the price only while volume does not rise")
		sym.AssertEq(y[i].Value, t, "the default NVI too")
	}
}

func C34_NegativeVolume() { nvi(okItem(sym.Range("n", 1, sym.Tier(4, 5)))) }

func C34_NegativeVolumeLong() { nvi(longItem(20, 0, 7, 18, 19)) }

func vpt(it *klines.Item, x *volume.VolumePriceTrend, p int) {
	_, _, _, c, v := columns(it)
	d := x.GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	t := 0.0
	for i := 0; i < len(c); i++ {
		prev := c[imax(0, i-p)]
		if i < p {
			prev = c[0]
		}
		t += v[i] * ratio(c[i]-prev, prev)
		sym.AssertEq(d[i].Value, t, "VPT adds up volume times the relative change of the close over the period")
	}
}

func C34_VolumePrice() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	vpt(it, volume.NewVolumePriceTrend(it, p), p)
}

func C34_VolumePriceDefault() {
	it := longItem(24, 0, 8, 22, 23)
	vpt(it, volume.NewDefaultVolumePriceTrend(it), 14)
}

// ---- windowed volume indicators ----

func vwma(it *klines.Item, x *volume.Vwma, p int) {
	_, _, _, c, v := columns(it)
	num, den := orSum(p, mulv(c, v)), orSum(p, v)
	d := x.GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	for i := 0; i < len(c); i++ {
		sym.AssertEq(d[i].Value, ratio(num[i], den[i]), "VWMA is the window's volume-weighted average close")
	}
}

func C35_Vwma() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	vwma(it, volume.NewVwma(it, p), p)
}

func C35_VwmaDefault() {
	it := longItem(14, 0, 5, 12, 13)
	vwma(it, volume.NewDefaultVwma(it), 5)
}

func cmf(it *klines.Item, x *volume.ChaikinMoneyFlow, p int) {
	_, h, l, c, v := columns(it)
	var mf []float64
	for i := 0; i < len(c); i++ {
		mf = append(mf, v[i]*ratio(c[i]-l[i]-(h[i]-c[i]), h[i]-l[i]))
	}
	num, den := orSum(p, mf), orSum(p, v)
	d := x.GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	for i := 0; i < len(c); i++ {
		sym.AssertEq(d[i].Value, ratio(num[i], den[i]), "CMF is the window's money flow volume over its volume")
	}
}

func C35_ChaikinMoneyFlow() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	cmf(it, volume.NewChaikinMoneyFlow(it, p), p)
}

func C35_ChaikinMoneyFlowDefault() {
	it := longItem(25, 0, 6, 24)
	cmf(it, volume.NewDefaultChaikinMoneyFlow(it), 20)
}

func emv(it *klines.Item, x *volume.EaseOfMovement, p int) {
	_, h, l, _, v := columns(it)
	dist := change(hl2(h, l))
	var e []float64
	for i := 0; i < len(h); i++ {
		e = append(e, ratio(dist[i], ratio(v[i]/100000000, h[i]-l[i])))
	}
	w := orSma(p, e)
	d := x.GetData()
	sym.Assert(len(d) == len(h), "one entry per candle")
	for i := 0; i < len(h); i++ {
		sym.AssertEq(d[i].Value, w[i], "EMV averages the distance moved per volume and range")
	}
}

func C35_EaseOfMovement() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	emv(it, volume.NewEaseOfMovement(it, p), p)
}

func C35_EaseOfMovementDefault() {
	it := longItem(20, 0, 6, 19)
	emv(it, volume.NewDefaultEaseOfMovement(it), 14)
}

func force(it *klines.Item, x *volume.ForceIndex, p int) {
	_, _, _, c, v := columns(it)
	w := orEma(p, mulv(change(c), v))
	d := x.GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	for i := 0; i < len(c); i++ {
		sym.AssertEq(d[i].Value, w[i], "the force index averages volume times the change of the close")
	}
}

func C35_ForceIndex() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	force(it, volume.NewForceIndex(it, p), p)
}

func C35_ForceIndexDefault() {
	it := longItem(20, 0, 6, 19)
	force(it, volume.NewDefaultForceIndex(it), 13)
}

func mfi(it *klines.Item, x *volume.MoneyFlowIndex, p int) {
	_, h, l, c, v := columns(it)
	flow := mulv(hlc3(h, l, c), v)
	ch := change(flow)
	var pos, neg []float64
	for i := 0; i < len(c); i++ {
		a, b := flow[i], 0.0
		if ch[i] < 0 {
			a, b = 0, flow[i]
		}
		pos, neg = append(pos, a), append(neg, b)
	}
	sp, sn := orSum(p, pos), orSum(p, neg)
	d := x.GetData()
	sym.Assert(len(d) == len(c), "one entry per candle")
	for i := 0; i < len(c); i++ {
		sym.AssertEq(d[i].Value, 100*ratio(sp[i], sp[i]+sn[i]), "MFI is the share of rising money flow, in percent")
	}
	checkSides(x.AnalysisSide(), len(c), func(i int) utils.Side {
		return side(d[i].Value < 10 && d[i-1].Value > 10, d[i].Value > 90 && d[i-1].Value < 90)
	})
}

func C35_MoneyFlow() {
	p := sym.Range("period", 1, 3)
	it := okItem(sym.Range("n", 1, sym.Tier(4, 5)))
	mfi(it, volume.NewMoneyFlowIndex(it, p), p)
}

func C35_MoneyFlowDefault() {
	it := longItem(20, 6, 19)
	mfi(it, volume.NewDefaultMoneyFlowIndex(it), 14)
}
