package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

type smcLevel struct {
	y     float64
	x     int
	fresh bool // not broken yet
}

type smcSwing struct {
	length, state, trend int
	top, bottom          smcLevel
}

// step looks for a swing high or low `length` candles back: one that the
// candles since have not reached. Highs and lows alternate.
func (s *smcSwing) step(h, l []float64, i int) (top, bottom bool) {
	k := i - s.length
	was := s.state
	if h[k] > maxOf(h[k+1:i+1]) {
		s.state = 0
	} else if l[k] < minOf(l[k+1:i+1]) {
		s.state = 1
	}
	if s.state == 0 && was == 1 {
		s.top = smcLevel{h[k], k, true}
		return true, false
	}
	if s.state == 1 && was == 0 {
		s.bottom = smcLevel{l[k], k, true}
		return false, true
	}
	return false, false
}

type smcBlock struct {
	top bool
	at  int
}

// smcAdd puts the structure's extreme candle among those not wider than two
// ATR, the latest of equals... the earliest on the way back, in front of the list.
func smcAdd(list []smcBlock, top bool, from, i int, h, l, atr []float64) []smcBlock {
	at := i - 1
	found := false
	for k := i; k >= from; k-- {
		if h[k]-l[k] < 2*atr[k] {
			if !found || (top && h[k] >= h[at]) || (!top && l[k] <= l[at]) {
				at, found = k, true
			}
		}
	}
	for k := 0; k < len(list); k++ {
		if list[k].top == top && list[k].at == at {
			return list
		}
	}
	out := []smcBlock{{top, at}}
	for k := 0; k < len(list); k++ {
		out = append(out, list[k])
	}
	return out
}

// smcPrune drops blocks the close has left through their far side, and all
// behind the newest few.
func smcPrune(list []smcBlock, keep int, c float64, h, l []float64) []smcBlock {
	var out []smcBlock
	for k := 0; k < len(list) && k < keep; k++ {
		b := list[k]
		if b.top && c > h[b.at] {
			continue
		}
		if !b.top && c < l[b.at] {
			continue
		}
		out = append(out, b)
	}
	return out
}

func checkBlocks(got trend.SmartMoneyConceptsDataOrderBlockList, want []smcBlock, it *klines.Item) {
	sym.Assert(len(got) == len(want), "as many order blocks as unbroken structures left")
	if len(got) != len(want) {
		return
	}
	for k := 0; k < len(got); k++ {
		c := it.Candles[want[k].at]
		sym.Assert(got[k].IsTop == want[k].top, "the block's side")
		sym.Assert(got[k].Time.Equal(time.Unix(c.TimeUnix, 0)), "the block is the structure's extreme candle")
		sym.AssertEq(got[k].Open, c.Open, "the block's open")
		sym.AssertEq(got[k].High, c.High, "the block's high")
		sym.AssertEq(got[k].Low, c.Low, "the block's low")
		sym.AssertEq(got[k].Close, c.Close, "the block's close")
	}
}

type smcMark struct {
	value float64
	at    int
	set   bool
}

func checkMark(got trend.SmartMoneyConceptsDataStrongWeak, want smcMark, it *klines.Item, what string) {
	sym.AssertEq(got.Value, want.value, what)
	if want.set {
		sym.Assert(got.Time.Equal(time.Unix(it.Candles[want.at].TimeUnix, 0)), what)
	}
}

func smc(it *klines.Item, x *trend.SmartMoneyConcepts, length, confirm, threshold int, eq bool) {
	n := len(it.Candles)
	_, h, l, c, _ := columns(it)
	atr := orAtr(200, h, l, c)
	keep := 5
	if length < 5 {
		keep, x.OrderBlockNumber = length-2, length-2
	}
	w := make([][10]float64, n) // the eight structure columns, EQH, EQL
	long, short := &smcSwing{length: length}, &smcSwing{length: 5}
	var inner, outer []smcBlock
	var sh, wh, sl, wl smcMark
	hiX, loX := 0, 0 // the trailing extremes
	eqh, eql := smcLevel{}, smcLevel{}

	paint := func(from, to, col int, v float64) {
		for k := from; k <= to; k++ {
			w[k][col] = v
		}
	}
	for i := 1; i < n; i++ {
		if i < imax(5, length) {
			if h[i] >= h[hiX] {
				hiX = i
			}
			if l[i] <= l[loX] {
				loX = i
			}
			continue
		}
		top, bottom := long.step(h, l, i)
		short.step(h, l, i)
		if top {
			hiX = i - length
		}
		if bottom {
			loX = i - length
		}
		if h[i] >= h[hiX] {
			hiX = i
		}
		if l[i] <= l[loX] {
			loX = i
		}
		over := func(v *smcLevel) bool { return v.fresh && c[i] > v.y && c[i-1] < v.y }
		under := func(v *smcLevel) bool { return v.fresh && c[i] < v.y && c[i-1] > v.y }
		if over(&short.top) && short.top.y != long.top.y {
			k := 0
			if short.trend < 0 {
				k = 1
			}
			paint(short.top.x, i, k, short.top.y)
			short.top.fresh, short.trend = false, 1
			inner = smcAdd(inner, false, short.top.x, i, h, l, atr)
		}
		if over(&long.top) {
			k := 2
			if long.trend < 0 {
				k = 3
			}
			paint(long.top.x, i, k, long.top.y)
			long.top.fresh, long.trend = false, 1
			outer = smcAdd(outer, false, long.top.x, i, h, l, atr)
		}
		if under(&short.bottom) && short.bottom.y != long.bottom.y {
			k := 4
			if short.trend > 0 {
				k = 5
			}
			paint(short.bottom.x, i, k, short.bottom.y)
			short.bottom.fresh, short.trend = false, -1
			inner = smcAdd(inner, true, short.bottom.x, i, h, l, atr)
		}
		if under(&long.bottom) {
			k := 6
			if long.trend > 0 {
				k = 7
			}
			paint(long.bottom.x, i, k, long.bottom.y)
			long.bottom.fresh, long.trend = false, -1
			outer = smcAdd(outer, true, long.bottom.x, i, h, l, atr)
		}
		inner, outer = smcPrune(inner, keep, c[i], h, l), smcPrune(outer, keep, c[i], h, l)
		if eq && i >= 2*confirm {
			k := i - confirm
			if h[k] == maxOf(h[k-confirm:i+1]) {
				if fabs(h[k]-eqh.y) < atr[i]*float64(threshold)/10 {
					paint(eqh.x, k, 8, eqh.y)
				}
				eqh = smcLevel{y: h[k], x: k}
			}
			if l[k] == minOf(l[k-confirm:i+1]) {
				if fabs(l[k]-eql.y) < atr[i]*float64(threshold)/10 {
					paint(eql.x, k, 9, eql.y)
				}
				eql = smcLevel{y: l[k], x: k}
			}
		}
		if long.trend < 0 {
			sh = smcMark{h[hiX], hiX, true}
		} else {
			wh = smcMark{h[hiX], hiX, true}
		}
		if long.trend > 0 {
			sl = smcMark{l[loX], loX, true}
		} else {
			wl = smcMark{l[loX], loX, true}
		}
	}

	d := x.GetData()
	sym.Assert(len(d) == n, "one entry per candle")
	for i := 0; i < n; i++ {
		sym.AssertEq(d[i].HighBOSShort, w[i][0], "a short structure's high is broken in its trend")
		sym.AssertEq(d[i].HighCHoCHShort, w[i][1], "a short structure's high is broken against its trend")
		sym.AssertEq(d[i].HighBOSLong, w[i][2], "a long structure's high is broken in its trend")
		sym.AssertEq(d[i].HighCHoCHLong, w[i][3], "a long structure's high is broken against its trend")
		sym.AssertEq(d[i].LowBOSShort, w[i][4], "a short structure's low is broken in its trend")
		sym.AssertEq(d[i].LowChoCHShort, w[i][5], "a short structure's low is broken against its trend")
		sym.AssertEq(d[i].LowBOSLong, w[i][6], "a long structure's low is broken in its trend")
		sym.AssertEq(d[i].LowChoCHLong, w[i][7], "a long structure's low is broken against its trend")
		sym.AssertEq(d[i].EQH, w[i][8], "equal highs lie within the threshold")
		sym.AssertEq(d[i].EQL, w[i][9], "equal lows lie within the threshold")
	}
	checkBlocks(x.OrderBlockBullish, inner, it)
	checkBlocks(x.OrderBlockBearish, outer, it)
	checkMark(x.StrongHigh, sh, it, "the strong high is the trailing high of a falling trend")
	checkMark(x.WeakHigh, wh, it, "the weak high is the trailing high otherwise")
	checkMark(x.StrongLow, sl, it, "the strong low is the trailing low of a rising trend")
	checkMark(x.WeakLow, wl, it, "the weak low is the trailing low otherwise")
}

// mirror turns rises into falls.
func mirror(it *klines.Item) {
	for _, c := range it.Candles {
		c.Open, c.Close, c.High, c.Low = 400-c.Open, 400-c.Close, 400-c.Low, 400-c.High
	}
}

// freeField makes one price of a candle arbitrary, within the others.
func freeField(it *klines.Item, at, field int) {
	c := it.Candles[at]
	v := sym.Float("free", at)
	switch field {
	case 0:
		c.Close = v
	case 1:
		c.High = v
	case 2:
		c.Low = v
	}
	sym.Assume(c.Low > 0)
	sym.Assume(c.Low <= c.Open)
	sym.Assume(c.Low <= c.Close)
	sym.Assume(c.Open <= c.High)
	sym.Assume(c.Close <= c.High)
}

// C41_Structure_Paths: one arbitrary candle among the last of a series too short for order blocks' ranges.
func C41_Structure_Paths() {
	length := sym.Range("length", 3, sym.Tier(6, 8))
	n := sym.Tier(30, 60)
	at := n - 1 - sym.Range("free candle", 0, sym.Tier(0, 5))
	it := longItem(n, at)
	x := trend.NewSmartMoneyConcepts(it, length, 2, 1)
	smc(it, x, length, 2, 1, false)
}

// C41_StructureField_Paths: one arbitrary price of any of many candles.
func C41_StructureField_Paths() {
	length := []int{2, 3, 4, 7}[sym.Range("length#", 0, 3)]
	n := sym.Tier(40, 80)
	it := longItem(n)
	if sym.Range("mirrored", 0, 1) == 1 {
		mirror(it)
	}
	at := n - 1 - sym.Range("free candle", 0, sym.Tier(6, 39))
	freeField(it, at, sym.Range("field", 0, 2))
	x := trend.NewSmartMoneyConcepts(it, length, 2, 1)
	smc(it, x, length, 2, 1, false)
}

// C41_Blocks_Paths: long enough for the 200-candle range that qualifies order blocks.
func C41_Blocks_Paths() {
	length := 3 + 2*sym.Range("length", 0, sym.Tier(0, 1))
	n := sym.Tier(236, 260)
	it := longItem(n)
	freeField(it, n-1-sym.Range("free candle", 0, sym.Tier(4, 15)), sym.Range("field", 0, 2))
	o, h, l, c, _ := columns(it)
	var times []int64
	for i := 0; i < n; i++ {
		times = append(times, it.Candles[i].TimeUnix)
	}
	x := trend.NewSmartMoneyConceptsOHLC(o, h, l, c, times, length, 2, 7)
	smc(it, x, length, 2, 7, false)
}

// C41_Equal_Paths: equal highs and lows.
func C41_Equal_Paths() {
	n := sym.Tier(208, 220)
	it := longItem(n)
	freeField(it, n-1-sym.Range("free candle", 0, sym.Tier(1, 7)), sym.Range("field", 0, 2))
	x := trend.NewSmartMoneyConcepts(it, 4, 1, 7)
	x.EQHEQL_Enable = true
	smc(it, x, 4, 1, 7, true)
}

// zigzag: up and down for more than 200 candles, a swing low in a candle as high
// as any, and a fall through it.
func zigzag(scale float64) *klines.Item {
	var rows [][4]float64
	for i := 0; i < 106; i++ {
		if i == 60 {
			rows = append(rows, [4]float64{61, 64, 60, 62}, [4]float64{52, 53, 51, 51})
			continue
		}
		if i == 101 {
			rows = append(rows, [4]float64{61, 62, 60, 62}, [4]float64{57, 62, 50, 57})
			continue
		}
		rows = append(rows, [4]float64{61, 62, 60, 62}, [4]float64{52, 53, 51, 51})
	}
	rows = append(rows, [4]float64{51, 52, 49, 49})
	it := &klines.Item{Exchange: "ex", Interval: klines.OneMin, Symbol: "s", Code: "c"}
	for i := 0; i < len(rows); i++ {
		r := rows[i]
		it.Candles = append(it.Candles, &klines.Candle{Open: r[0] * scale, High: r[1] * scale, Low: r[2] * scale, Close: r[3] * scale, Volume: 1, TimeUnix: t0 + 60*int64(i)})
	}
	return it
}

// C41_Origin_Paths: the broken swing's own candle may be the structure's
// extreme, prices may be very small or very large.
func C41_Origin_Paths() {
	scale := []float64{1, 1.0 / 1024, 1 << 30}[sym.Range("scale", 0, 2)]
	it := zigzag(scale)
	n := len(it.Candles)
	freeField(it, []int{203, n - 1, n - 2}[sym.Range("free candle", 0, sym.Tier(1, 2))], sym.Range("field", 0, 2))
	if sym.Range("mirrored", 0, 1) == 1 {
		for _, c := range it.Candles {
			c.Open, c.Close, c.High, c.Low = 400*scale-c.Open, 400*scale-c.Close, 400*scale-c.Low, 400*scale-c.High
		}
		for _, c := range it.Candles {
			sym.Assume(c.Low > 0)
		}
	}
	length := sym.Range("length", 4, 5)
	smc(it, trend.NewSmartMoneyConcepts(it, length, 2, 1), length, 2, 1, false)
}

func C41_Default_Paths() {
	n := sym.Tier(150, 300)
	it := longItem(n)
	freeField(it, n-1-sym.Range("free candle", 0, 1), sym.Range("field", 0, 2))
	smc(it, trend.NewDefaultSmartMoneyConcepts(it), 50, 3, 1, false)
}
