package zzverif

import (
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// unit says how an indicator's columns grow when prices (p) and volumes (v) are
// stated in another unit: by that power of the factor.
type unit struct{ p, v int }

var units = map[int]unit{
	ixUlcerIndex: {0, 0}, ixPercentagePriceOscillator: {0, 0}, ixProjectionOscillator: {0, 0}, ixStochasticOscillator: {0, 0},
	ixVolumeOscillator: {0, 0}, ixWilliamsR: {0, 0}, ixAiCoinCCI: {0, 0}, ixAverageDirectionalIndex: {0, 0}, ixCci: {0, 0},
	ixKdj: {0, 0}, ixRsi: {0, 0}, ixStochRsi: {0, 0}, ixStochasticHeat: {0, 0}, ixVortex: {0, 0}, ixReversalSignals: {0, 0},
	ixChaikinMoneyFlow: {0, 0}, ixMoneyFlowIndex: {0, 0}, ixNegativeVolumeIndex: {0, 0},
	ixChaikinOscillator: {0, 1}, ixAccumulationDistribution: {0, 1}, ixObv: {0, 1}, ixVolumePriceTrend: {0, 1},
	ixEaseOfMovement: {2, -1}, ixForceIndex: {1, 1},
}

func unitOf(ix, col int) unit {
	if ix == ixBreakoutProbability {
		if col >= 2 && (col-2)%3 == 0 {
			return unit{1, 0}
		}
		return unit{0, 0}
	}
	if u, ok := units[ix]; ok {
		return u
	}
	return unit{1, 0}
}

func grow(x float64, f float64, times int) float64 {
	for ; times > 0; times-- {
		x = x * f
	}
	for ; times < 0; times++ {
		x = x / f
	}
	return x
}

// restated is the item with prices and volumes in other units.
func restated(it *klines.Item, f, g float64) *klines.Item {
	r := copyItem(it)
	for i := 0; i < len(r.Candles); i++ {
		c := r.Candles[i]
		c.Open, c.High, c.Low, c.Close, c.Volume = c.Open*f, c.High*f, c.Low*f, c.Close*f, c.Volume*g
	}
	return r
}

// C49_Units: stating prices or volumes in another unit (a power of two, so that
// nothing is rounded) changes no signal and no ratio, and prices and volumes
// by the unit alone.
func C49_Units() {
	ix, cfg := pick()
	n := sym.Range("n", 1, sym.Tier(4, 5))
	f, g := float64(1<<30), 1.0
	switch sym.Range("unit", 0, 2) {
	case 1:
		f, g = 1.0/(1<<40), 1
	case 2:
		f, g = 1, 1<<20
	}
	sameUnits(ix, cfg, okItem(n), f, g)
}

// C49_Long: the same with the default periods beyond their warm-up.
func C49_Long() {
	ix, cfg, it := pickLong()
	if sym.Range("unit", 0, 1) == 0 {
		sameUnits(ix, cfg, it, 1.0/(1<<40), 1<<20)
	} else {
		sameUnits(ix, cfg, it, 1<<30, 1)
	}
}

func sameUnits(ix, cfg int, it *klines.Item, f, g float64) {
	n := len(it.Candles)
	a, b := indicators[ix](it, cfg), indicators[ix](restated(it, f, g), cfg)
	ra, rb := a.rows(), b.rows()
	sym.Assert(len(ra) == n && len(rb) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.Assert(ra[i].side == rb[i].side, "a signal does not depend on the unit")
		sym.Assert(len(ra[i].vals) == len(rb[i].vals), "the number of levels does not depend on the unit")
		for q := 0; q < len(ra[i].vals); q++ {
			u := unitOf(ix, q)
			x, y := grow(grow(ra[i].vals[q], f, u.p), g, u.v), rb[i].vals[q]
			sym.Assert(x == y || x != x && y != y, "a value changes by its unit alone")
		}
	}
	if a.side != nil {
		sa, sb := a.side(), b.side()
		for i := 0; i < n; i++ {
			sym.Assert(sa.Data[i] == sb.Data[i], "a signal does not depend on the unit")
		}
	}
}

// C49_Series: the deviation helpers of the ta package.
func C49_Series() {
	n := sym.Range("n", 1, sym.Tier(4, 6))
	p := sym.Range("period", 1, 3)
	f := []float64{1 << 30, 1.0 / (1 << 40)}[sym.Range("unit", 0, 1)]
	v := floats("v", n)
	w := make([]float64, n)
	for i := 0; i < n; i++ {
		w[i] = v[i] * f
	}
	for k, h := range []func(v []float64) []float64{
		func(v []float64) []float64 { return ta.StdDev(v, p, 1) },
		func(v []float64) []float64 { return ta.StdDev(v, p, 2) },
		func(v []float64) []float64 { return ta.Dev(v, p) },
		func(v []float64) []float64 { return ta.LinearReg(v, p) },
		func(v []float64) []float64 { return ta.Wma(p, v) },
		func(v []float64) []float64 { return ta.Variance(v, p) },
	} {
		a, b := h(v), h(w)
		for i := 0; i < n; i++ {
			x := a[i] * f
			if k == 5 {
				x *= f
			}
			sym.Assert(x == b[i] || x != x && b[i] != b[i], "a value changes by its unit alone")
		}
	}
}

// C50_Labels: candles of the same prices and volumes, but of other times (any
// gaps), other amounts and changes, under another name, interval and
// exchange, give the same values and signals. (Camarilla's signals go by the
// day: there the days are moved as a whole.)
func C50_Labels() {
	ix, cfg := pick()
	n := sym.Range("n", 1, sym.Tier(4, 5))
	sameLabels(ix, cfg, okItem(n))
}

// C50_Long: the same with the default periods beyond their warm-up.
func C50_Long() {
	ix, cfg, it := pickLong()
	sameLabels(ix, cfg, it)
}

func sameLabels(ix, cfg int, it *klines.Item) {
	n := len(it.Candles)
	o := &klines.Item{Exchange: "other", Interval: klines.OneDay, Symbol: "t", Code: "d"}
	at := t0
	for i := 0; i < n; i++ {
		c := it.Candles[i]
		if ix == ixCamarilla {
			at = c.TimeUnix + 37*86400
		} else {
			gap := int64(7 + i)
			if i < 6 {
				gap = sym.Int("gap", i, 1, 1<<30)
			}
			at += gap
		}
		o.Candles = append(o.Candles, &klines.Candle{
			Open: c.Open, High: c.High, Low: c.Low, Close: c.Close, Volume: c.Volume,
			Amount: sym.Float("other amount", i), ChangePercent: sym.Float("other chg", i), IsBullMarket: c.IsBullMarket,
			Count: int64(i + 100), TimeUnix: at,
		})
	}
	a, b := indicators[ix](it, cfg), indicators[ix](o, cfg)
	ra, rb := a.rows(), b.rows()
	sym.Assert(len(ra) == n && len(rb) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.Assert(rb[i].at.Unix() == o.Candles[i].TimeUnix, "an entry carries its candle's time")
		sym.Assert(ra[i].side == rb[i].side, "a mark depends on prices and volumes alone")
		sym.Assert(len(ra[i].vals) == len(rb[i].vals), "the number of levels depends on prices and volumes alone")
		for q := 0; q < len(ra[i].vals); q++ {
			x, y := ra[i].vals[q], rb[i].vals[q]
			sym.Assert(x == y || x != x && y != y, "a value depends on prices and volumes alone")
		}
	}
	if a.side != nil {
		sa, sb := a.side(), b.side()
		sym.Assert(sa.Name == sb.Name, "a strategy's name depends on its settings alone")
		for i := 0; i < n; i++ {
			sym.Assert(sa.Data[i] == sb.Data[i], "a signal depends on prices and volumes alone")
		}
	}
}
