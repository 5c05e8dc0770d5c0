package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/volume"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// ---- Camarilla ----

func camarillaLevels(it *klines.Item, x *oscillator.Camarilla, p int) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	ema := orEma(p, c)
	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		r := h[i] - l[i]
		q := c[i] * h[i] / l[i]
		e := d[i]
		sym.AssertEq(e.EMA, ema[i], "the exponential average of the close")
		sym.AssertEq(e.Pivot, (h[i]+l[i]+c[i])/3, "the pivot is the typical price")
		sym.AssertEq(e.High1, c[i]+r*1.1/12, "first resistance")
		sym.AssertEq(e.High2, c[i]+r*1.1/6, "second resistance")
		sym.AssertEq(e.High3, c[i]+r*1.1/4, "third resistance")
		sym.AssertEq(e.High4, c[i]+r*1.1/2, "fourth resistance")
		sym.AssertEq(e.Low1, c[i]-r*1.1/12, "first support")
		sym.AssertEq(e.Low2, c[i]-r*1.1/6, "second support")
		sym.AssertEq(e.Low3, c[i]-r*1.1/4, "third support")
		sym.AssertEq(e.Low4, c[i]-r*1.1/2, "fourth support")
		sym.AssertEq(e.High5, q, "fifth resistance")
		sym.AssertEq(e.Low5, 2*c[i]-q, "fifth support")
		h6 := q + 1.168*(q-(c[i]+r*1.1/2))
		sym.AssertEq(e.High6, h6, "sixth resistance")
		sym.AssertEq(e.Low6, 2*c[i]-h6, "sixth support")
	}
}

func C33_Levels() {
	p := sym.Range("period", 1, 4)
	it := okItem(sym.Range("n", 1, sym.Tier(5, 6)))
	camarillaLevels(it, oscillator.NewCamarilla(it, p), p)
}

func C33_LevelsDefault() {
	it := longItem(20, 2, 18, 19)
	camarillaLevels(it, oscillator.NewDefaultCamarilla(it), 8)
}

// C33_Sides: a candle is compared with the levels of its own day, or of the
// last day for which levels are known.
func C33_Sides() {
	const hour = 3600
	base := int64(1684108800) // a midnight
	n := sym.Range("n", 1, sym.Tier(5, 6))
	step := []int64{6 * hour, 12 * hour, 24 * hour, 32 * 24 * hour, 366 * 24 * hour}[sym.Range("step#", 0, 4)]
	m := sym.Range("days", 0, 3)
	first := int64(sym.Range("first day", 0, 1))
	it, days := okItem(n), &klines.Item{}
	for i := 0; i < n; i++ {
		it.Candles[i].TimeUnix = base + step*int64(i)
	}
	dstep := step
	if dstep < 24*hour {
		dstep = 24 * hour
	}
	for i := 0; i < m; i++ {
		c := klines.Candle{TimeUnix: base + dstep*(int64(i)+first) + 7*hour, High: sym.Float("day high", i), Low: sym.Float("day low", i), Close: sym.Float("day close", i)}
		sym.Assume(c.Low > 0)
		sym.Assume(c.Low <= c.Close)
		sym.Assume(c.Close <= c.High)
		days.Candles = append(days.Candles, &c)
	}
	x := oscillator.NewCamarilla(it, 2)
	if m > 0 && n < 4 {
		x.AnalysisSide(&klines.Item{Candles: days.Candles[:1]}) // asked about other days before
	}
	s := x.AnalysisSide(days)
	o, _, _, c, _ := columns(it)
	ema := orEma(2, c)
	sym.Assert(len(s.Data) == n, "one signal per candle")
	sym.Assert(s.Name == x.Name, "under the strategy's name")
	known, level := false, 0.0
	for i := 0; i < n; i++ {
		y, mo, da := time.Unix(it.Candles[i].TimeUnix, 0).Date()
		for k := 0; k < m; k++ {
			d := days.Candles[k]
			yy, mm, dd := time.Unix(d.TimeUnix, 0).Date()
			if y == yy && mo == mm && da == dd {
				known, level = true, d.Close+(d.High-d.Low)*1.1/2
				break
			}
		}
		want := utils.Hold
		if known {
			want = side(c[i] < ema[i] && c[i] > level && o[i] < level, c[i] > ema[i] && c[i] < level && o[i] > level)
		}
		sym.Assert(s.Data[i] == want, "signals are given where a candle's body crosses its day's breakout level")
	}
}

// ---- running strategies ----

type fixedStrategy struct {
	name  string
	sides []utils.Side
	calls *int
}

func (f *fixedStrategy) AnalysisSide() utils.SideData {
	*f.calls++
	return utils.SideData{Name: f.name, Data: f.sides}
}

// C44_Run: every strategy is asked once and its answer reported in its place.
func C44_Run() {
	n := sym.Range("strategies", 0, 4)
	names := []string{"a", "b", "c", "d"}
	if sym.Range("equal names", 0, 1) == 1 {
		names = []string{"a", "b", "a", "a"}
	}
	calls := make([]int, n)
	var list []utils.IStrategy
	var want [][]utils.Side
	for i := 0; i < n; i++ {
		var v []utils.Side
		for k := 0; k < 2; k++ {
			v = append(v, side(sym.Bool("buy", 2*i+k), sym.Bool("sell", 2*i+k)))
		}
		want = append(want, v)
		list = append(list, &fixedStrategy{names[i], v, &calls[i]})
	}
	r := utils.RunStrategies(list...)
	sym.Assert(len(r) == n, "one answer per strategy")
	for i := 0; i < n; i++ {
		sym.Assert(calls[i] == 1, "each strategy runs once")
		sym.Assert(r[i].Name == names[i], "answers keep the strategies' order and names")
		sym.Assert(len(r[i].Data) == 2, "answers are passed on whole")
		for k := 0; k < 2; k++ {
			sym.Assert(r[i].Data[k] == want[i][k], "answers are passed on unchanged")
		}
	}
}

// C44_RunReal: the same with real strategies over one item.
func C44_RunReal() {
	n := sym.Range("n", 1, sym.Tier(3, 5))
	it := okItem(n)
	mk := func() []utils.IStrategy {
		return []utils.IStrategy{trend.NewMacd(it, 1, 2, 3), trend.NewRsi(it, 2), channel.NewBoll(it, 2, 2), volume.NewMoneyFlowIndex(it, 2), oscillator.NewWilliamsR(it, 2)}
	}
	r := utils.RunStrategies(mk()...)
	alone := mk()
	sym.Assert(len(r) == len(alone), "one answer per strategy")
	for i := 0; i < len(alone); i++ {
		w := alone[i].AnalysisSide()
		sym.Assert(r[i].Name == w.Name, "answers keep the strategies' order and names")
		sym.Assert(len(r[i].Data) == n && len(w.Data) == n, "one signal per candle")
		for k := 0; k < n; k++ {
			sym.Assert(r[i].Data[k] == w.Data[k], "running together changes no answer")
		}
	}
}

// C44_Names: the three sides are distinct and every value has the right name.
func C44_Names() {
	sym.Assert(utils.Buy != utils.Sell && utils.Sell != utils.Hold && utils.Buy != utils.Hold, "the sides are distinct")
	v := utils.Side(uint32(sym.Int("side", 0, 0, 1<<32-1)))
	s := v.String()
	sym.Assert((s == "BUY") == (v == utils.Buy), "BUY names Buy")
	sym.Assert((s == "SELL") == (v == utils.Sell), "SELL names Sell")
	sym.Assert((s == "HOLD") == (v == utils.Hold), "HOLD names Hold")
	sym.Assert((s == "UNKNOWN") == (v != utils.Buy && v != utils.Sell && v != utils.Hold), "anything else is unknown")
	n := sym.Range("n", 0, 3)
	var l utils.Sides
	for i := 0; i < n; i++ {
		l = append(l, side(sym.Bool("buy", i), sym.Bool("sell", i)))
	}
	names := l.Strings()
	sym.Assert(len(names) == n, "one name per side")
	for i := 0; i < n; i++ {
		sym.Assert(names[i] == l[i].String(), "names keep the order")
	}
}
