package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// pricedItem has n candles with arbitrary positive prices and arbitrary volumes.
func pricedItem(n int, start int64, iv klines.Interval) *klines.Item {
	it := rawItem(n)
	it.Interval = iv
	step := int64(time.Duration(iv) / time.Second)
	for i := 0; i < n; i++ {
		c := it.Candles[i]
		c.TimeUnix = start + step*int64(i)
		sym.Assume(c.Open > 0)
		sym.Assume(c.High > 0)
		sym.Assume(c.Low > 0)
		sym.Assume(c.Close > 0)
	}
	return it
}

func sameCandle(a, b *klines.Candle, what string) {
	sym.AssertEq(a.Open, b.Open, what)
	sym.AssertEq(a.High, b.High, what)
	sym.AssertEq(a.Low, b.Low, what)
	sym.AssertEq(a.Close, b.Close, what)
	sym.AssertEq(a.Volume, b.Volume, what)
	sym.AssertEq(a.Amount, b.Amount, what)
	sym.AssertEq(a.ChangePercent, b.ChangePercent, what)
	sym.Assert(a.IsBullMarket == b.IsBullMarket, what)
	sym.Assert(a.Count == b.Count, what)
	sym.Assert(a.TimeUnix == b.TimeUnix, what)
}

func sameItem(a, b *klines.Item, what string) {
	sym.Assert(len(a.Candles) == len(b.Candles), what)
	for i := 0; i < len(a.Candles); i++ {
		sameCandle(a.Candles[i], b.Candles[i], what)
	}
}

func checkAggregate(it, out *klines.Item, first, k, count int) {
	sym.Assert(len(out.Candles) == count, "one candle per complete new interval")
	for g := 0; g < count; g++ {
		c := out.Candles[g]
		w := it.Candles[first+g*k : first+(g+1)*k]
		_, h, l, _, v := columns(&klines.Item{Candles: w})
		sym.Assert(c.TimeUnix == w[0].TimeUnix, "the new candle starts with its first candle")
		sym.AssertEq(c.Open, w[0].Open, "Open is the first candle's")
		sym.AssertEq(c.High, maxOf(h), "High is the highest of the interval")
		sym.AssertEq(c.Low, minOf(l), "Low is the lowest of the interval")
		sym.AssertEq(c.Close, w[k-1].Close, "Close is the last candle's")
		sym.AssertEq(c.Volume, sum(v), "Volume is the total of the interval")
		amount, trades := 0.0, int64(0)
		for _, s := range w {
			amount += s.Amount
			trades += s.Count
		}
		sym.AssertEq(c.Amount, amount, "Amount is the total of the interval")
		sym.Assert(c.Count == trades, "Count is the total of the interval")
		sym.AssertEq(c.ChangePercent, (w[k-1].Close-w[0].Open)/w[0].Open, "ChangePercent is from open to close")
		sym.Assert(c.IsBullMarket == (w[k-1].Close > w[0].Open), "IsBullMarket tells whether it closed higher")
	}
}

// C14_Aggregate: aligned, gap-free series of every length.
func C14_Aggregate() {
	ivs := []klines.Interval{klines.OneMin, klines.FifteenMin, klines.OneHour, klines.OneDay}
	iv := ivs[sym.Range("interval", 0, sym.Tier(1, 3))]
	k := sym.Range("factor", 2, sym.Tier(3, 5))
	n := sym.Range("n", k, sym.Tier(7, 12))
	nw := iv * klines.Interval(k)
	step := int64(time.Duration(nw) / time.Second)
	start := int64(1600000000) + 62135596800
	start = start - start%step - 62135596800
	it := pricedItem(n, start, iv)
	keep := copyItem(it)
	out, err := it.ConvertToNewInterval(nw)
	sym.Assert(err == nil, "a gap-free series converts")
	sym.Assert(out.Interval == nw, "the result has the new interval")
	sym.Assert(out.Exchange == it.Exchange, "the exchange is kept")
	sym.Assert(out.Symbol == it.Symbol, "the symbol is kept")
	sym.Assert(out.Code == it.Code, "the code is kept")
	checkAggregate(it, out, 0, k, n/k)
	sameItem(it, keep, "the source is not modified")
}

// C14_Long: hours of minutes, and days of hours.
func C14_Long() {
	iv, k, n := klines.OneMin, 15, 64
	switch sym.Range("case", 0, sym.Tier(1, 2)) {
	case 1:
		iv, k, n = klines.OneHour, 24, 72
	case 2:
		iv, k, n = klines.OneMin, 60, 185
	}
	nw := iv * klines.Interval(k)
	step := int64(time.Duration(nw) / time.Second)
	start := int64(1600000000) + 62135596800
	start = start - start%step - 62135596800
	it := pricedItem(n, start, iv)
	out, err := it.ConvertToNewInterval(nw)
	sym.Assert(err == nil, "a gap-free series converts")
	checkAggregate(it, out, 0, k, n/k)
}

// C14_Unaligned: the series starts between two boundaries of the new interval.
func C14_Unaligned() {
	k := sym.Range("factor", 2, 3)
	off := sym.Range("offset", 1, k-1)
	n := sym.Range("n", 2*k, 2*k+1)
	nw := klines.OneMin * klines.Interval(k)
	start := int64(1600000000) + 62135596800
	start = start - start%int64(60*k) - 62135596800 + int64(60*off)
	it := pricedItem(n, start, klines.OneMin)
	out, err := it.ConvertToNewInterval(nw)
	sym.Assert(err == nil, "a gap-free series converts")
	for g := 0; g < len(out.Candles); g++ {
		c := out.Candles[g]
		a := -1
		for i := 0; i < n; i++ {
			if it.Candles[i].TimeUnix == c.TimeUnix {
				a = i
			}
		}
		sym.Assert(a >= 0 && a+k <= n, "every returned candle covers a complete interval")
		if a < 0 || a+k > n {
			return
		}
		w := it.Candles[a : a+k]
		_, h, l, _, v := columns(&klines.Item{Candles: w})
		sym.AssertEq(c.Open, w[0].Open, "Open is the first candle's")
		sym.AssertEq(c.High, maxOf(h), "High is the highest of the interval")
		sym.AssertEq(c.Low, minOf(l), "Low is the lowest of the interval")
		sym.AssertEq(c.Close, w[k-1].Close, "Close is the last candle's")
		sym.AssertEq(c.Volume, sum(v), "Volume is the total of the interval")
	}
}

// C14_Errors: what cannot be converted is refused with an error, never a crash.
func C14_Errors() {
	n := sym.Range("n", 0, 4)
	it := rawItem(n)
	_, err := (*klines.Item)(nil).ConvertToNewInterval(klines.OneHour)
	sym.Assert(err != nil, "a missing item is refused")
	it.Interval = klines.Interval(sym.Range("old interval", -1, 0))
	_, err = it.ConvertToNewInterval(klines.OneHour)
	sym.Assert(err != nil, "an unset interval is refused")
	it.Interval = klines.TwoHour
	for _, iv := range []klines.Interval{0, -1, klines.OneHour, klines.TwoHour, klines.ThreeHour, klines.SevenHour} {
		_, err = it.ConvertToNewInterval(iv)
		sym.Assert(err != nil, "shorter, equal and non-multiple intervals are refused")
	}
	it.Interval = klines.OneMin
	if n < 3 {
		_, err = it.ConvertToNewInterval(klines.ThreeMin)
		sym.Assert(err != nil, "too few candles for one new candle are refused")
		return
	}
	gap := sym.Range("gap", 1, n-1)
	for i := gap; i < n; i++ {
		it.Candles[i].TimeUnix += 60
	}
	_, err = it.ConvertToNewInterval(klines.ThreeMin)
	sym.Assert(err != nil, "a series with a gap is refused")
	// a series starting at the epoch
	ep := rawItem(n)
	for i := 0; i < n; i++ {
		ep.Candles[i].TimeUnix = int64(60 * i)
	}
	sym.Assert(!sym.Panics(func() { ep.ConvertToNewInterval(klines.ThreeMin) }), "no crash at the epoch")
}

func timedItem(n int) *klines.Item {
	it := rawItem(n)
	for i := 0; i < n; i++ {
		it.Candles[i].TimeUnix = sym.Int("t", i, 1, 1<<40)
	}
	return it
}

// C15_Range: filtering keeps exactly the candles with start <= time < end, in order.
func C15_Range() {
	n := sym.Range("n", 0, sym.Tier(4, 6))
	it := timedItem(n)
	from, to := sym.Int("from", 0, 1, 1<<40), sym.Int("to", 0, 1, 1<<40)
	keep := copyItem(it)
	cp := it.RemoveOutsideRangeCopy(time.Unix(from, 0), time.Unix(to, 0))
	sameItem(it, keep, "the copying filter leaves the item alone")
	sym.Assert(cp.Exchange == it.Exchange && cp.Interval == it.Interval && cp.Symbol == it.Symbol && cp.Code == it.Code, "the copy is of the same instrument")
	for i := 0; i < len(cp.Candles); i++ {
		for q := 0; q < n; q++ {
			sym.Assert(cp.Candles[i] != it.Candles[q], "the copy shares no candle")
		}
	}
	it.RemoveOutsideRange(time.Unix(from, 0), time.Unix(to, 0))
	sym.Assert(len(it.Candles) == len(cp.Candles), "the copy holds what the item keeps")
	sym.Assume(from < to)
	g := 0
	for i := 0; i < n; i++ {
		c := keep.Candles[i]
		if c.TimeUnix >= from && c.TimeUnix < to {
			sym.Assert(g < len(it.Candles), "nothing inside the range is dropped")
			sym.Assert(g < len(cp.Candles), "nothing inside the range is dropped from the copy")
			sameCandle(it.Candles[g], c, "kept candles are unchanged and in order")
			sameCandle(cp.Candles[g], c, "copied candles are unchanged and in order")
			g++
		}
	}
	sym.Assert(len(it.Candles) == g, "nothing outside the range is kept")
	sym.Assert(len(cp.Candles) == g, "nothing outside the range is copied")
}

// C15_Duplicates: the first candle of each time stays, in order.
func C15_Duplicates() {
	n := sym.Range("n", 0, sym.Tier(4, 5))
	it := timedItem(n)
	keep := copyItem(it)
	it.RemoveDuplicates()
	g := 0
	for i := 0; i < n; i++ {
		dupe := false
		for q := 0; q < i; q++ {
			if keep.Candles[q].TimeUnix == keep.Candles[i].TimeUnix {
				dupe = true
			}
		}
		if !dupe {
			sym.Assert(g < len(it.Candles), "no distinct time is dropped")
			sameCandle(it.Candles[g], keep.Candles[i], "the first candle of each time is kept in order")
			g++
		}
	}
	sym.Assert(len(it.Candles) == g, "no time is kept twice")
}

// C15_Sort: sorting orders by time and keeps every candle.
func C15_Sort() {
	n := sym.Range("n", 0, sym.Tier(4, 5))
	desc := sym.Range("desc", 0, 1) == 1
	it := timedItem(n)
	for i := 0; i < n; i++ {
		for q := 0; q < i; q++ {
			sym.Assume(it.Candles[i].TimeUnix != it.Candles[q].TimeUnix)
		}
	}
	keep := copyItem(it)
	it.SortCandlesByTimestamp(desc)
	sym.Assert(len(it.Candles) == n, "sorting keeps the number of candles")
	for i := 0; i+1 < n; i++ {
		if desc {
			sym.Assert(it.Candles[i].TimeUnix > it.Candles[i+1].TimeUnix, "descending order")
		} else {
			sym.Assert(it.Candles[i].TimeUnix < it.Candles[i+1].TimeUnix, "ascending order")
		}
	}
	for q := 0; q < n; q++ {
		found := false
		for i := 0; i < n; i++ {
			if it.Candles[i].TimeUnix == keep.Candles[q].TimeUnix && it.Candles[i].Close == keep.Candles[q].Close && it.Candles[i].Volume == keep.Candles[q].Volume {
				found = true
			}
		}
		sym.Assert(found, "every candle is still there")
	}
}

// C15_Clear: clearing empties the item.
func C15_Clear() {
	it := rawItem(sym.Range("n", 0, 3))
	it.Clear()
	sym.Assert(len(it.Candles) == 0, "a cleared item is empty")
}

// C16_Ranges: the date ranges tile the window.
func C16_Ranges() {
	ivs := []klines.Interval{klines.OneMin, klines.OneHour, klines.OneDay}
	iv := ivs[sym.Range("interval", 0, 2)]
	step := int64(time.Duration(iv) / time.Second)
	base := int64(1600000000) + 62135596800
	base = base - base%step - 62135596800
	count := sym.Range("count", 1, sym.Tier(13, 24))
	limit := sym.Range("limit", 0, sym.Tier(12, 25))
	skewed(iv, step, base, count, limit)
}

func skewed(iv klines.Interval, step, base int64, count, limit int) {
	from := base
	to := base + step*int64(count)
	if sym.Range("skew", 0, 1) == 1 { // both ends less than half an interval off
		from += sym.Int("skew from", 0, -step/2+1, step/2-1)
		to += sym.Int("skew to", 0, -step/2+1, step/2-1)
		sym.Assume(from < to)
	}
	h, err := klines.CalculateCandleDateRanges(time.Unix(from, 0), time.Unix(to, 0), iv, uint32(limit))
	sym.Assert(err == nil, "a proper window has ranges")
	sym.Assert(h.Start.Ticks == base, "the ranges start at the rounded start")
	sym.Assert(h.End.Ticks == base+step*int64(count), "the ranges end at the rounded end")
	at := base
	total := 0
	for i := 0; i < len(h.Ranges); i++ {
		r := &h.Ranges[i]
		sym.Assert(r.Start.Ticks == at, "a range starts where the previous one ended")
		sym.Assert(r.Start.Time.Unix() == at, "time and ticks agree")
		sym.Assert(len(r.Intervals) > 0, "no range is empty")
		if limit > 0 {
			sym.Assert(len(r.Intervals) <= limit, "a range has no more intervals than the limit")
			sym.Assert(i == len(h.Ranges)-1 || len(r.Intervals) == limit, "only the last range may be short")
		}
		for q := 0; q < len(r.Intervals); q++ {
			v := r.Intervals[q]
			sym.Assert(v.Start.Ticks == at, "an interval starts where the previous one ended")
			at += step
			sym.Assert(v.End.Ticks == at, "an interval is as long as requested")
			sym.Assert(v.Start.Equal(v.Start.Time) && v.End.Equal(v.End.Time), "time and ticks agree")
			sym.Assert(!v.HasData, "nothing is marked as present")
			total++
		}
		sym.Assert(r.End.Ticks == at, "a range ends with its last interval")
	}
	sym.Assert(total == count, "every interval of the window is listed once")
	sym.Assert(klines.TotalCandlesPerInterval(time.Unix(base, 0), time.Unix(base+step*int64(count), 0), iv) == int64(count), "the number of candles agrees")
}

// C16_Many: windows of hundreds of intervals, in many and in large ranges.
func C16_Many() {
	w := [][2]int{{300, 100}, {301, 100}, {299, 100}, {120, 7}, {257, 0}, {1001, 1000}}[sym.Range("window", 0, sym.Tier(4, 5))]
	skewed(klines.OneMin, 60, 1600000020, w[0], w[1])
}

// C16_Errors: improper windows are refused.
func C16_Errors() {
	from, to := sym.Int("from", 0, 1, 1500000000), sym.Int("to", 0, 1, 1500000000)
	sym.Assume(from >= to)
	_, err := klines.CalculateCandleDateRanges(time.Unix(from, 0), time.Unix(to, 0), klines.OneMin, 10)
	sym.Assert(err != nil, "an empty or reversed window is refused")
	_, err = klines.CalculateCandleDateRanges(time.Unix(to, 0), time.Unix(from+1, 0), klines.Interval(-sym.Range("iv", 0, 1)), 10)
	sym.Assert(err != nil, "an unset interval is refused")
	_, err = klines.CalculateCandleDateRanges(time.Time{}, time.Unix(from, 0), klines.OneMin, 10)
	sym.Assert(err != nil, "an unset start is refused")
	_, err = klines.CalculateCandleDateRanges(time.Unix(from, 0), time.Time{}, klines.OneMin, 10)
	sym.Assert(err != nil, "an unset end is refused")
	sym.Assert(klines.TotalCandlesPerInterval(time.Unix(to, 0), time.Unix(from, 0), 0) == 0, "no interval, no candles")
}

// C16_Total: whole intervals between two instants.
func C16_Total() {
	ivs := []klines.Interval{klines.OneMin, klines.OneHour, klines.OneDay, klines.OneYear}
	iv := ivs[sym.Range("interval", 0, 3)]
	step := int64(time.Duration(iv) / time.Second)
	from, d := sym.Int("from", 0, 1, 1<<33), sym.Int("d", 0, 0, 1<<33)
	r := klines.TotalCandlesPerInterval(time.Unix(from, 0), time.Unix(from+d, 0), iv)
	sym.Assert(r*step <= d, "no more candles than fit")
	sym.Assert(d < (r+1)*step, "no fewer candles than fit")
}

// C16_HasData: exactly the instants inside a marked interval have data.
func C16_HasData() {
	count := sym.Range("count", 1, sym.Tier(4, 6))
	limit := sym.Range("limit", 0, 3)
	base := t0
	h, err := klines.CalculateCandleDateRanges(time.Unix(base, 0), time.Unix(base+60*int64(count), 0), klines.OneMin, uint32(limit))
	sym.Assert(err == nil, "a proper window has ranges")
	flags := make([]bool, count)
	g := 0
	for i := range h.Ranges {
		for q := range h.Ranges[i].Intervals {
			flags[g] = sym.Bool("has", g)
			h.Ranges[i].Intervals[q].HasData = flags[g]
			g++
		}
	}
	at := sym.Int("at", 0, base-200, base+60*int64(count)+200)
	got := h.HasDataAtDate(time.Unix(at, 0))
	want := false
	for i := 0; i < count; i++ {
		if base+60*int64(i) <= at && at < base+60*int64(i+1) {
			want = flags[i]
		}
	}
	sym.Assert(got == want, "there is data exactly inside the marked intervals")
}

// C17_Columns: the column view and the price averages are candle by candle.
func C17_Columns() {
	n := sym.Range("n", 0, sym.Tier(4, 6))
	it := rawItem(n)
	keep := copyItem(it)
	c := it.GetOHLC()
	hl2, hlc3, ohlc4 := it.HL2(), it.HLC3(), it.OHLC4()
	for _, v := range [][]float64{c.Open, c.High, c.Low, c.Close, c.Volume, hl2, hlc3, ohlc4} {
		sym.Assert(len(v) == n, "one value per candle")
	}
	sym.Assert(len(c.BullMarket) == n && len(c.TimeUnix) == n, "one value per candle")
	for i := 0; i < n; i++ {
		k := keep.Candles[i]
		sym.AssertEq(c.Open[i], k.Open, "Open")
		sym.AssertEq(c.High[i], k.High, "High")
		sym.AssertEq(c.Low[i], k.Low, "Low")
		sym.AssertEq(c.Close[i], k.Close, "Close")
		sym.AssertEq(c.Volume[i], k.Volume, "Volume")
		sym.Assert(c.BullMarket[i] == k.IsBullMarket, "BullMarket")
		sym.Assert(c.TimeUnix[i] == k.TimeUnix, "TimeUnix")
		sym.AssertEq(hl2[i], (k.High+k.Low)/2, "HL2")
		sym.AssertEq(hlc3[i], (k.High+k.Low+k.Close)/3, "HLC3")
		sym.AssertEq(ohlc4[i], (k.Open+k.High+k.Low+k.Close)/4, "OHLC4")
	}
	sameItem(it, keep, "the item is not modified")
	for i := 0; i < n; i++ {
		c.Close[i]++
		hl2[i]++
	}
	sameItem(it, keep, "the columns do not alias the item")
}

// C17_HeikinAshi: averaged candles.
func C17_HeikinAshi() {
	n := sym.Range("n", 0, sym.Tier(4, 6))
	it := okItem(n)
	keep := copyItem(it)
	r := it.ToHeikinAshi()
	sameItem(it, keep, "the item is not modified")
	sym.Assert(len(r.Candles) == n, "one averaged candle per candle")
	sym.Assert(r.Exchange == it.Exchange && r.Interval == it.Interval && r.Symbol == it.Symbol && r.Code == it.Code, "the result is of the same instrument")
	for i := 0; i < n; i++ {
		k, a := keep.Candles[i], r.Candles[i]
		open := (k.Open + k.Close) / 2
		if i > 0 {
			open = (keep.Candles[i-1].Open + keep.Candles[i-1].Close) / 2
		}
		sym.Assert(a.TimeUnix == k.TimeUnix, "time is kept")
		sym.AssertEq(a.Close, (k.Open+k.High+k.Low+k.Close)/4, "Close is the average price")
		sym.AssertEq(a.Open, open, "Open is the middle of the previous body")
		sym.AssertEq(a.High, fmax(k.High, open), "High covers the candle and the new open")
		sym.AssertEq(a.Low, fmin(k.Low, open), "Low covers the candle and the new open")
		sym.AssertLe(a.Low, fmin(a.Open, a.Close), "Low is below the body")
		sym.AssertLe(fmax(a.Open, a.Close), a.High, "High is above the body")
		sym.AssertEq(a.ChangePercent, (k.Close-k.Open)/k.Open, "ChangePercent is the candle's change")
		sym.Assert(a.IsBullMarket == (k.Close > k.Open), "IsBullMarket tells whether the candle rose")
	}
}
