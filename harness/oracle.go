package zzverif

import (
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// longItem has n varied concrete candles (rises, falls, gaps, flat ones, zero
// volumes), except that those at the places in free are arbitrary well-formed
// candles. It is used where the default periods need a long series.
func longItem(n int, free ...int) *klines.Item {
	it := &klines.Item{Exchange: "ex", Interval: klines.OneMin, Symbol: "s", Code: "c"}
	for i := 0; i < n; i++ {
		var c klines.Candle
		isFree := false
		for _, f := range free {
			if f == i {
				isFree = true
			}
		}
		if isFree {
			c = klines.Candle{Open: sym.Float("open", i), High: sym.Float("high", i), Low: sym.Float("low", i), Close: sym.Float("close", i),
				Volume: sym.Float("vol", i), IsBullMarket: sym.Bool("bull", i)}
			sym.Assume(c.Low > 0)
			sym.Assume(c.Low <= c.Open)
			sym.Assume(c.Low <= c.Close)
			sym.Assume(c.Open <= c.High)
			sym.Assume(c.Close <= c.High)
			sym.Assume(c.Volume >= 0)
		} else {
			m := float64(100 + (i*37)%23 - (i*i*13)%17)
			o := m + float64((i*7)%5-2)
			cl := m + float64((i*11)%7-3)
			hi, lo := fmax(o, cl)+float64((i*5)%4), fmin(o, cl)-float64((i*3)%4)
			if i%13 == 9 {
				o, cl, hi, lo = m, m, m, m // a flat candle
			}
			c = klines.Candle{Open: o, Close: cl, High: hi, Low: lo, Volume: float64((i * 29) % 12), IsBullMarket: cl > o}
		}
		c.Count = int64(i + 1)
		c.TimeUnix = t0 + 60*int64(i)
		it.Candles = append(it.Candles, &c)
	}
	return it
}

// checkSides compares signals with a rule given for candle i >= 1; the first
// candle, with nothing to compare with, is Hold.
func checkSides(s utils.SideData, n int, rule func(i int) utils.Side) {
	sym.Assert(len(s.Data) == n, "one signal per candle")
	for i := 0; i < n; i++ {
		if i == 0 {
			sym.Assert(s.Data[i] == utils.Hold, "the first candle is Hold")
		} else {
			sym.Assert(s.Data[i] == rule(i), "the signal follows the documented rule")
		}
	}
}

// side is Buy, Sell or Hold; Buy wins.
func side(buy, sell bool) utils.Side {
	if buy {
		return utils.Buy
	}
	if sell {
		return utils.Sell
	}
	return utils.Hold
}

// crossSide: Buy when a rises from below b to above it, Sell when it falls.
func crossSide(a, b, pa, pb float64) utils.Side {
	return side(a > b && pa < pb, a < b && pa > pb)
}

func eqSeries(got, want []float64, what string) {
	sym.Assert(len(got) == len(want), "one value per candle")
	for i := 0; i < len(want); i++ {
		sym.AssertEq(got[i], want[i], what)
	}
}

func col(r []row, k int) []float64 {
	var v []float64
	for i := 0; i < len(r); i++ {
		v = append(v, r[i].vals[k])
	}
	return v
}

// ratio is a/b, and 0 when b is 0.
func ratio(a, b float64) float64 {
	if b == 0 {
		return 0
	}
	return a / b
}

func subv(a, b []float64) []float64 {
	r := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		r[i] = a[i] - b[i]
	}
	return r
}

func scale(a []float64, k float64) []float64 {
	r := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		r[i] = a[i] * k
	}
	return r
}

func hl2(h, l []float64) []float64 {
	r := make([]float64, len(h))
	for i := 0; i < len(h); i++ {
		r[i] = (h[i] + l[i]) / 2
	}
	return r
}

func hlc3(h, l, c []float64) []float64 {
	r := make([]float64, len(h))
	for i := 0; i < len(h); i++ {
		r[i] = (h[i] + l[i] + c[i]) / 3
	}
	return r
}

func orMax(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		r[i] = maxOf(win(v, i, p))
	}
	return r
}

func orMin(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		r[i] = minOf(win(v, i, p))
	}
	return r
}

func orSum(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		r[i] = sum(win(v, i, p))
	}
	return r
}

// orWma weights the newest value p and the oldest 1; 0 before the window is full.
func orWma(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := p - 1; i < len(v); i++ {
		s := 0.0
		for k := 0; k < p; k++ {
			s += float64(k+1) * v[i-p+1+k]
		}
		r[i] = s / float64(p*(p+1)/2)
	}
	return r
}
