package zzverif

import (
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// pick chooses an indicator and its periods: defaults, or small ones where
// they can be chosen.
func pick() (ix, cfg int) {
	ix = sym.Range("indicator", 0, len(indicators)-1)
	cfg = 0
	if hasCfg[ix] {
		cfg = sym.Range("small periods", 0, 1)
	}
	return
}

// pickLong chooses an indicator with its default or medium periods and a series
// longer than most or all of them, of which the last candle is arbitrary.
func pickLong() (int, int, *klines.Item) {
	ix := sym.Range("indicator", 0, len(indicators)-1)
	cfg := 0
	if hasCfg[ix] {
		cfg = 2 * sym.Range("medium periods", 0, 1)
	}
	n := []int{33, 61, 95}[sym.Range("length#", 0, sym.Tier(1, 2))]
	if ix == ixStochasticHeat { // 28 oscillators: one arbitrary close is as much as is in reach
		return ix, cfg, lastClose(n)
	}
	return ix, cfg, longItem(n, n-1)
}

// lastClose is a fixed series with an arbitrary close and volume at its end.
func lastClose(n int) *klines.Item {
	it := longItem(n)
	c := it.Candles[n-1]
	c.Low, c.High, c.Close, c.Volume = 50, 150, sym.Float("close", n-1), sym.Float("vol", n-1)
	sym.Assume(c.Low <= c.Close)
	sym.Assume(c.Close <= c.High)
	sym.Assume(c.Volume >= 0)
	return it
}

func sameRows(a, b []row, n int, what string) {
	for i := 0; i < n; i++ {
		sym.Assert(a[i].at.Unix() == b[i].at.Unix(), what)
		sym.Assert(a[i].side == b[i].side, what)
		sym.Assert(len(a[i].vals) == len(b[i].vals), what)
		for q := 0; q < len(a[i].vals); q++ {
			sym.AssertEq(a[i].vals[q], b[i].vals[q], what)
		}
	}
}

// C18_Rows: one entry per candle, carrying that candle's time; asking again or
// calculating again gives the same entries; the value getters repeat them.
func C18_Rows() {
	ix, cfg := pick()
	n := sym.Range("n", 1, sym.Tier(4, 6))
	it := rawItem(n)
	h := indicators[ix](it, cfg)
	a := h.rows()
	sym.Assert(len(a) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.Assert(a[i].at.Unix() == it.Candles[i].TimeUnix, "an entry carries its candle's time")
	}
	b := h.rows()
	sym.Assert(len(b) == n, "asking again gives as many entries")
	sameRows(a, b, n, "asking again gives the same entries")
	h.calc()
	c := h.rows()
	sym.Assert(len(c) == n, "calculating again gives as many entries")
	sameRows(a, c, n, "calculating again gives the same entries")
	for g := 0; g < len(h.gets); g++ {
		fresh := indicators[ix](it, cfg)
		for _, cols := range [][][]float64{h.gets[g].get(), fresh.gets[g].get()} {
			for q := 0; q < len(cols); q++ {
				sym.Assert(len(cols[q]) == n, "one value per candle")
				for i := 0; i < n; i++ {
					sym.AssertEq(cols[q][i], a[i].vals[h.gets[g].cols[q]], "the value getter repeats the data")
				}
			}
		}
	}
}

// C18_Apart: two indicators of a kind over two series do not mix, in whatever
// order they are read.
func C18_Apart() {
	ix, cfg := pick()
	n := sym.Range("n", 1, sym.Tier(3, 4))
	it := rawItem(n)
	ot := copyItem(it)
	for i := 0; i < n; i++ {
		c := ot.Candles[i]
		c.Open, c.High, c.Low, c.Close, c.Volume = sym.Float("open2", i), sym.Float("high2", i), sym.Float("low2", i), sym.Float("close2", i), sym.Float("vol2", i)
	}
	g, h := indicators[ix](ot, cfg), indicators[ix](it, cfg)
	a := h.rows()
	b := g.rows()
	if g.side != nil {
		g.side()
	}
	sameRows(a, h.rows(), n, "another indicator does not change what was calculated")
	h.calc()
	sameRows(a, h.rows(), n, "another indicator does not change what is calculated")
	sameRows(b, g.rows(), n, "another indicator does not change what was calculated")
	sameRows(b, indicators[ix](ot, cfg).rows(), n, "another indicator does not change what is calculated")
}

// C18_Long: the same beyond the warm-up of the default periods.
func C18_Long() {
	ix, cfg, it := pickLong()
	n := len(it.Candles)
	h := indicators[ix](it, cfg)
	a := h.rows()
	sym.Assert(len(a) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.Assert(a[i].at.Unix() == it.Candles[i].TimeUnix, "an entry carries its candle's time")
	}
	h.calc()
	c := h.rows()
	sym.Assert(len(c) == n, "calculating again gives as many entries")
	sameRows(a, c, n, "calculating again gives the same entries")
	for g := 0; g < len(h.gets); g++ {
		cols := indicators[ix](it, cfg).gets[g].get()
		for q := 0; q < len(cols); q++ {
			sym.Assert(len(cols[q]) == n, "one value per candle")
			for i := 0; i < n; i++ {
				sym.AssertEq(cols[q][i], a[i].vals[h.gets[g].cols[q]], "the value getter repeats the data")
			}
		}
	}
}

// C19_Inputs: nothing an indicator does changes the candles it was given, and
// two indicators over one item do not disturb each other.
func C19_Inputs() {
	ix, cfg := pick()
	n := sym.Range("n", 1, sym.Tier(3, 6))
	it := rawItem(n)
	keep := copyItem(it)
	h := indicators[ix](it, cfg)
	g := indicators[ix](it, cfg)
	a := h.rows()
	h.calc()
	if h.side != nil {
		h.side()
	}
	for q := 0; q < len(h.gets); q++ {
		h.gets[q].get()
	}
	sameItem(it, keep, "the candles are not modified")
	sym.Assert(it.Exchange == keep.Exchange && it.Interval == keep.Interval && it.Symbol == keep.Symbol && it.Code == keep.Code, "the item is not modified")
	b := g.rows()
	sym.Assert(len(b) == len(a), "a second indicator over the same item is not disturbed")
	sameRows(a, b, n, "a second indicator over the same item is not disturbed")
}

// C19_Order: candles in any order of time stay in that order, long series too.
func C19_Order() {
	ix := sym.Range("indicator", 0, len(indicators)-1)
	n := []int{4, 40}[sym.Range("length#", 0, 1)]
	it := longItem(n, n-1)
	if ix == ixStochasticHeat {
		it = lastClose(n)
	}
	switch sym.Range("times", 0, 2) {
	case 0:
		for i := 0; i < n; i++ {
			it.Candles[i].TimeUnix = t0 - 60*int64(i)
		}
	case 1:
		for i := 0; i < n; i++ {
			it.Candles[i].TimeUnix = t0 + 60*int64(i*7%n)
		}
	case 2:
		for i := 0; i < n; i++ {
			it.Candles[i].TimeUnix = t0
		}
	}
	keep := copyItem(it)
	ptr := append([]*klines.Candle(nil), it.Candles...)
	h := indicators[ix](it, 0)
	a := h.rows()
	h.calc()
	if h.side != nil {
		h.side()
	}
	for q := 0; q < len(h.gets); q++ {
		h.gets[q].get()
	}
	sameItem(it, keep, "the candles are not modified")
	for i := 0; i < n; i++ {
		sym.Assert(it.Candles[i] == ptr[i], "the candles are not replaced or moved")
		sym.Assert(a[i].at.Unix() == keep.Candles[i].TimeUnix, "an entry carries its candle's time")
	}
}

// C20_Causal: what is reported for a candle does not depend on later candles.
func C20_Causal() {
	ix, cfg := pick()
	if ix == ixSmartMoneyConcepts {
		return // marks structures back to their origin by design
	}
	n := sym.Range("n", 2, sym.Tier(4, 6))
	it := rawItem(n)
	pre := copyItem(it)
	m := sym.Range("prefix", imax(1, n-2), n-1)
	pre.Candles = pre.Candles[:m]
	h, g := indicators[ix](it, cfg), indicators[ix](pre, cfg)
	a, b := h.rows(), g.rows()
	sym.Assert(len(b) == m, "one entry per candle")
	sameRows(a, b, m, "an entry does not depend on later candles")
	if h.side != nil && ix != ixCamarilla {
		sa, sb := h.side(), g.side()
		for i := 0; i < m; i++ {
			sym.Assert(sa.Data[i] == sb.Data[i], "a signal does not depend on later candles")
		}
	}
}

// C20_Long: the same beyond the warm-up of the default periods.
func C20_Long() {
	ix, cfg, it := pickLong()
	if ix == ixSmartMoneyConcepts {
		return
	}
	n := len(it.Candles)
	pre := copyItem(it)
	m := []int{n - 1, n - 8, 28}[sym.Range("prefix#", 0, 2)]
	pre.Candles = pre.Candles[:m]
	h, g := indicators[ix](it, cfg), indicators[ix](pre, cfg)
	a, b := h.rows(), g.rows()
	sym.Assert(len(b) == m, "one entry per candle")
	sameRows(a, b, m, "an entry does not depend on later candles")
	if h.side != nil && ix != ixCamarilla {
		sa, sb := h.side(), g.side()
		for i := 0; i < m; i++ {
			sym.Assert(sa.Data[i] == sb.Data[i], "a signal does not depend on later candles")
		}
	}
}

// C21_Long: one signal per candle, the same on every call, beyond the warm-up.
func C21_Long() {
	ix, cfg, it := pickLong()
	n := len(it.Candles)
	h := indicators[ix](it, cfg)
	if h.side == nil {
		return
	}
	s := h.side()
	sym.Assert(len(s.Data) == n, "one signal per candle")
	for i := 0; i < n; i++ {
		sym.Assert(s.Data[i] == utils.Buy || s.Data[i] == utils.Sell || s.Data[i] == utils.Hold, "a signal is Buy, Sell or Hold")
	}
	a := h.rows()
	t := h.side()
	g := indicators[ix](it, cfg)
	sameRows(a, g.rows(), n, "analysing does not change the data")
	u := g.side()
	sym.Assert(len(t.Data) == n && len(u.Data) == n, "one signal per candle")
	for i := 0; i < n; i++ {
		sym.Assert(s.Data[i] == t.Data[i], "asking again gives the same signals")
		sym.Assert(s.Data[i] == u.Data[i], "signals do not depend on whether data was calculated before")
	}
}

// C21_Sides: one of Buy, Sell, Hold per candle; Hold where there is no previous
// candle to compare with; asking again gives the same signals.
func C21_Sides() {
	ix, cfg := pick()
	n := sym.Range("n", 1, sym.Tier(3, 6))
	it := rawItem(n)
	h := indicators[ix](it, cfg)
	if h.side == nil {
		return
	}
	s := h.side()
	sym.Assert(len(s.Data) == n, "one signal per candle")
	sym.Assert(s.Name == h.name && s.Name != "", "the signals carry the strategy's name")
	for i := 0; i < n; i++ {
		sym.Assert(s.Data[i] == utils.Buy || s.Data[i] == utils.Sell || s.Data[i] == utils.Hold, "a signal is Buy, Sell or Hold")
	}
	if ix != ixCamarilla { // its first candle has a breakout level to compare with
		sym.Assert(s.Data[0] == utils.Hold, "the first candle is Hold")
	}
	a := h.rows()
	t := h.side()
	sym.Assert(len(t.Data) == n, "asking again gives as many signals")
	for i := 0; i < n; i++ {
		sym.Assert(s.Data[i] == t.Data[i], "asking again gives the same signals")
	}
	g := indicators[ix](it, cfg)
	b := g.rows()
	sameRows(a, b, n, "analysing does not change the data")
	u := g.side()
	for i := 0; i < n; i++ {
		sym.Assert(s.Data[i] == u.Data[i], "signals do not depend on whether data was calculated before")
	}
}

// C46_Short: no series is too short: every method of every indicator returns.
func C46_Short() {
	ix, cfg := pick()
	n := sym.Range("n", 0, sym.Tier(3, 6))
	it := rawItem(n)
	sym.Assert(!sym.Panics(func() {
		h := indicators[ix](it, cfg)
		h.calc()
		r := h.rows()
		if h.side != nil {
			h.side()
		}
		for q := 0; q < len(h.gets); q++ {
			h.gets[q].get()
		}
		sym.Assert(len(r) == n, "one entry per candle")
	}), "no crash however short the series")
}

// C46_Lengths: nor is any longer one, up to beyond the default periods.
func C46_Lengths() {
	ix := sym.Range("indicator", 0, len(indicators)-1)
	cfg := 0
	if hasCfg[ix] {
		cfg = 2 * sym.Range("medium periods", 0, 1)
	}
	lo := 4 + 8*sym.Range("lengths", 0, sym.Tier(7, 11))
	for n := lo; n < lo+8; n++ {
		it := lastClose(n)
		if ix == ixStochRsi {
			it.Candles[n-1].Close = 97
		}
		sym.Assert(!sym.Panics(func() {
			h := indicators[ix](it, cfg)
			h.calc()
			r := h.rows()
			if h.side != nil {
				h.side()
			}
			for q := 0; q < len(h.gets); q++ {
				h.gets[q].get()
			}
			sym.Assert(len(r) == n, "one entry per candle")
		}), "no crash at any length")
	}
}

var _ = klines.OneMin
