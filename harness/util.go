// Package zzverif holds the verification harnesses. Each exported function
// CNN_* states (part of) property CNN: sym.* gives it symbolic inputs, the
// repository's public API is executed on them, and the assertions are decided
// by the solver for every value of the inputs within the stated sizes.
package zzverif

import (
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// floats returns n arbitrary finite numbers.
func floats(name string, n int) []float64 {
	r := make([]float64, n)
	for i := 0; i < n; i++ {
		r[i] = sym.Float(name, i)
	}
	return r
}

func dup(v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		r[i] = v[i]
	}
	return r
}

const t0 = int64(1600000020)

// rawItem has n candles with arbitrary finite field values, one minute apart.
func rawItem(n int) *klines.Item {
	it := &klines.Item{Exchange: "ex", Interval: klines.OneMin, Symbol: "s", Code: "c"}
	for i := 0; i < n; i++ {
		it.Candles = append(it.Candles, &klines.Candle{
			Open: sym.Float("open", i), High: sym.Float("high", i), Low: sym.Float("low", i), Close: sym.Float("close", i),
			Volume: sym.Float("vol", i), Amount: sym.Float("amount", i),
			ChangePercent: sym.Float("chg", i), IsBullMarket: sym.Bool("bull", i),
			Count: int64(i + 1), TimeUnix: t0 + 60*int64(i),
		})
	}
	return it
}

// okItem has n well-formed candles: 0 < Low <= Open,Close <= High, Volume >= 0.
func okItem(n int) *klines.Item {
	it := rawItem(n)
	for i := 0; i < n; i++ {
		c := it.Candles[i]
		sym.Assume(c.Low > 0)
		sym.Assume(c.Low <= c.Open)
		sym.Assume(c.Low <= c.Close)
		sym.Assume(c.Open <= c.High)
		sym.Assume(c.Close <= c.High)
		sym.Assume(c.Volume >= 0)
	}
	return it
}

// copyItem is a deep copy.
func copyItem(it *klines.Item) *klines.Item {
	r := &klines.Item{Exchange: it.Exchange, Interval: it.Interval, Symbol: it.Symbol, Code: it.Code}
	for i := 0; i < len(it.Candles); i++ {
		c := *it.Candles[i]
		r.Candles = append(r.Candles, &c)
	}
	return r
}

func columns(it *klines.Item) (o, h, l, c, v []float64) {
	for i := 0; i < len(it.Candles); i++ {
		k := it.Candles[i]
		o = append(o, k.Open)
		h = append(h, k.High)
		l = append(l, k.Low)
		c = append(c, k.Close)
		v = append(v, k.Volume)
	}
	return
}

func fmax(a, b float64) float64 {
	if a > b {
		return a
	}
	return b
}

func fmin(a, b float64) float64 {
	if a < b {
		return a
	}
	return b
}

func fabs(a float64) float64 {
	if a < 0 {
		return -a
	}
	return a
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- oracles: the textbook definitions, written independently of the repository ----

// win is the window of at most p values ending at i.
func win(v []float64, i, p int) []float64 { return v[imax(0, i-p+1) : i+1] }

func sum(v []float64) float64 {
	s := 0.0
	for i := 0; i < len(v); i++ {
		s += v[i]
	}
	return s
}

func mean(v []float64) float64 { return sum(v) / float64(len(v)) }

func maxOf(v []float64) float64 {
	m := v[0]
	for i := 1; i < len(v); i++ {
		m = fmax(m, v[i])
	}
	return m
}

func minOf(v []float64) float64 {
	m := v[0]
	for i := 1; i < len(v); i++ {
		m = fmin(m, v[i])
	}
	return m
}

// orSma is the simple moving average, over the available values at the start.
func orSma(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		r[i] = mean(win(v, i, p))
	}
	return r
}

// orEma starts at the first value; weight of the newest value is 2/(p+1).
func orEma(p int, v []float64) []float64 {
	r := make([]float64, len(v))
	for i := 0; i < len(v); i++ {
		if i == 0 {
			r[i] = v[i]
			continue
		}
		r[i] = (2*v[i] + float64(p-1)*r[i-1]) / float64(p+1)
	}
	return r
}

func observe(name string, v []float64) {
	for i := 0; i < len(v); i++ {
		sym.Observe(name, i, v[i])
	}
}
