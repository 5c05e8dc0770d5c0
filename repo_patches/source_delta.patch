From 00b9eeb8db99541618bfbee655f95bd9195e0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 01/58] fix: linear regression of a series shorter than the
 period returns zeros instead of panicking

---
 utils/ta/ta.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..0d570af 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
-- 
2.43.0


From ccb44d041652224323ea699a6bcad243efb0cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 02/58] fix: Wma of a series shorter than the period returns
 zeros instead of panicking

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 0d570af..6996b5f 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -366,6 +366,9 @@ func Wma(period int, values []float64) []float64 {
 		copy(result, values)
 		return result
 	}
+	if period < 1 || len(values) < period {
+		return result
+	}
 	divider := (period * (period + 1)) >> 1
 	outIdx := period - 1
 	trailingIdx := startIdx - lookbackTotal
-- 
2.43.0


From 8076283345328b7affe016e99ba10c9de59f5ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 03/58] fix: Atr and Natr of a series not longer than the
 period return zeros instead of panicking

---
 utils/ta/ta.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6996b5f..5827cb9 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -470,6 +470,10 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	outIdx := inTimePeriod
 	today := inTimePeriod + 1
 
@@ -502,6 +506,10 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	outIdx := inTimePeriod
 	today := inTimePeriod
-- 
2.43.0


From a18800c636caa6a544b704f4cb66bacd8cfe1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 04/58] fix: Variance and StdDev of a series shorter than the
 period return zeros instead of panicking

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 5827cb9..a7a21c6 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -1028,6 +1028,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
-- 
2.43.0


From 161065a7c54227cb3b1e78c2c7a77269647b9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 05/58] fix: SD of an empty slice is 0, as its test expects,
 not NaN

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index a7a21c6..39f7e13 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -216,6 +216,10 @@ func Stochastic(closing, highs, lows []float64, period int) (k, d []float64) {
 
 // StdDev - 标准差
 func SD(values []float64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
 	// 首先计算收盘价的平均值
 	sum := 0.0
 	for _, k := range values {
-- 
2.43.0


From e93b73d8ede0dc5a0cab0c2b538c9a9220bd976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 06/58] fix: Rma starts with the simple average of the first
 values as documented, including the first one

---
 utils/ta/ta.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 39f7e13..9c33b2d 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -313,9 +313,6 @@ func Rma(period int, values []float64) []float64 {
 	sum := float64(0)
 
 	for i, value := range values {
-		if i < 1 {
-			continue
-		}
 		count := i + 1
 		if i < period {
 			sum += value
-- 
2.43.0


From e6427fad4240ca1fe984408cfa2923d952285ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 07/58] fix: PivotMax and PivotMin find negative extremes and
 extremes equal on both sides

---
 utils/ta/ta.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 9c33b2d..2034bda 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -866,9 +866,8 @@ func PivotLow(values []float64, left, right int) []float64 {
 
 // PivotMax 以 index 为起始点，向 左、右 开始查找最大值
 func PivotMax(values []float64, index, left, right int) (val float64, position int) {
-	var leftVal, rightVal float64
+	var leftVal, rightVal = values[index], values[index]
 
-	// val = values[index]
 	position = index
 
 	var leftPositions = index
@@ -897,12 +896,10 @@ func PivotMax(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal > rightVal {
-		return leftVal, leftPositions
-	} else if leftVal < rightVal {
+	if leftVal < rightVal {
 		return rightVal, rightPositions
 	}
-	return values[index], index
+	return leftVal, leftPositions
 
 }
 
@@ -939,12 +936,10 @@ func PivotMin(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal < rightVal {
-		return leftVal, leftPositions
-	} else if leftVal > rightVal {
+	if leftVal > rightVal {
 		return rightVal, rightPositions
 	}
-	return values[index], index
+	return leftVal, leftPositions
 
 }
 
-- 
2.43.0


From af9a3428addb5ce2168d14034e8515cb8140a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 08/58] fix: ConvertToNewInterval returns an error for an empty
 item or an unset start instead of panicking

---
 utils/klines/kline.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d495109..5236991 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -45,6 +45,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	if len(e.Candles) == 0 {
+		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
+	}
+
 	start := time.Unix(e.Candles[0].TimeUnix, 0)
 	end := time.Unix(e.Candles[len(e.Candles)-1].TimeUnix, 0).Add(e.Interval.Duration())
 	window := end.Sub(start)
@@ -78,7 +82,7 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	// 有的时候不取整，重新计算开始、结束时间
 	newIntervalRangeHolder, err := CalculateCandleDateRanges(start, end, newInterval, 100000)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 
 	var target int
-- 
2.43.0


From 7dc03f7d994a444fafe32a3c7204f1ad7dcfe378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 09/58] fix: ConvertToNewInterval keeps trailing incomplete
 candles out of the last candle's high and low

---
 utils/klines/kline.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 5236991..e00742d 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -107,6 +107,11 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			candles[target].Open = e.Candles[x].Open
 		}
 
+		if e.Candles[x].TimeUnix >= candles[target].TimeUnix+int64(newInterval.Duration().Seconds()) {
+			// 已超出最后一根完整蜡烛的时间范围，剩余的不完整部分不参与计算
+			break
+		}
+
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix || e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].High > candles[target].High {
 			candles[target].High = e.Candles[x].High
 		}
-- 
2.43.0


From d00d93e6947f9064dd69e48af007a1cdf5a6edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 10/58] fix: converted and filtered copies keep the symbol and
 code

---
 utils/klines/kline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index e00742d..0b90692 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -146,6 +146,8 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	return &Item{
 		Exchange: e.Exchange,
 		Interval: newInterval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Candles:  candles,
 	}, nil
 }
@@ -163,6 +165,8 @@ func (e *Item) RemoveOutsideRangeCopy(start, end time.Time) *Item {
 	klineItem := &Item{
 		Exchange: e.Exchange,
 		Interval: e.Interval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Candles:  candles,
 	}
 	klineItem.RemoveOutsideRange(start, end)
-- 
2.43.0


From 3d9e79a483d5a6076f763dc3ff65fc3aa66d4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 11/58] fix: SortCandlesByTimestamp(true) sorts descending and
 (false) ascending, as its test expects

---
 utils/klines/kline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 0b90692..35920a5 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -205,10 +205,10 @@ func (e *Item) RemoveDuplicates() {
 // SortCandlesByTimestamp sorts candles by timestamp
 func (e *Item) SortCandlesByTimestamp(desc bool) {
 	if desc {
-		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
+		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
 		return
 	}
-	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
+	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
 }
 
 // addPadding 插入填充时间对齐，当交易所不提供所有数据时
-- 
2.43.0


From a91d43b6385c80dddd15320bd4efad4f7a38ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 12/58] fix: ToHeikinAshi low is the lowest price, the second
 candle uses its predecessor, symbol and code are kept

---
 utils/klines/technical_analysis.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 8874c74..fb60fde 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -44,13 +44,15 @@ func (e *Item) ToHeikinAshi() *Item {
 	var result = &Item{
 		Exchange: e.Exchange,
 		Interval: e.Interval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 	}
 
 	result.Candles = make([]*Candle, len(e.Candles))
 	for index, candle := range e.Candles {
 
 		var open = (candle.Open + candle.Close) / 2
-		if index > 1 {
+		if index > 0 {
 			var prev = e.Candles[index-1]
 			open = (prev.Open + prev.Close) / 2
 		}
@@ -59,7 +61,7 @@ func (e *Item) ToHeikinAshi() *Item {
 			Open:     open,
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
-			Low:      math.Max(candle.Low, math.Min(open, candle.Close)),
+			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0


From d2caa2cea5b05c5d4b4e5f96d619bd0c5be55fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 13/58] fix: AnalysisSide reports Hold, not Buy, for the first
 bars where no signal can be computed

---
 channel/Boll.go                         | 1 +
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 oscillator/AbsolutePriceOscillator.go   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/EMAVegas.go                       | 2 ++
 trend/Kdj.go                            | 1 +
 trend/Macd.go                           | 1 +
 trend/PivotPointSuperTrend.go           | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/SuperTrend.go                     | 1 +
 trend/UTBot.go                          | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 23 files changed, 24 insertions(+)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..fc2ab00 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -130,6 +130,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..9b7c55a 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -84,6 +84,7 @@ func (e *DonchianChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..f0312ba 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -89,6 +89,7 @@ func (e *KeltnerChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AbsolutePriceOscillator.go b/oscillator/AbsolutePriceOscillator.go
index 78b2196..0820641 100644
--- a/oscillator/AbsolutePriceOscillator.go
+++ b/oscillator/AbsolutePriceOscillator.go
@@ -60,6 +60,7 @@ func (e *AbsolutePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..24d7489 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -63,6 +63,7 @@ func (e *AwesomeOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..35c36fa 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -78,6 +78,7 @@ func (e *ChaikinOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..9bb8273 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -119,6 +119,7 @@ func (e *IchimokuCloud) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < e.ConversionPeriod {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..472135d 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -90,6 +90,7 @@ func (e *PercentagePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..83dd3f0 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -87,6 +87,7 @@ func (e *ProjectionOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..b1684f6 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -94,6 +94,7 @@ func (e *StochasticOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..ceab412 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -84,6 +84,7 @@ func (e *WilliamsR) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..e71d628 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -85,6 +85,7 @@ func (e *AiCoinCCI) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..e91e053 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -156,6 +156,7 @@ func (e *Cci) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..98bfaf7 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -108,6 +108,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 
 	for i := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var item = e.data[i]
@@ -115,6 +116,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 		var t1, d1 bool
 
 		if (i - 10 - 1) < 0 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..7e8c536 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -75,6 +75,7 @@ func (e *Kdj) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Macd.go b/trend/Macd.go
index 66ca477..39875a5 100644
--- a/trend/Macd.go
+++ b/trend/Macd.go
@@ -96,6 +96,7 @@ func (e *Macd) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..a5d6fea 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -159,6 +159,7 @@ func (e *PivotPointSuperTrend) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..f3a2ed7 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -61,6 +61,7 @@ func (e *Rsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..ba78ad8 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -76,6 +76,7 @@ func (e *StochRsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..46d0009 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -189,6 +189,7 @@ func (e *StochasticHeat) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..1086142 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -177,6 +177,7 @@ func (e *SuperTrend) AnalysisSide() utils.SideData {
 	sides := make([]utils.Side, len(e.data))
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..07d2c39 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -110,6 +110,7 @@ func (e *UTBot) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var close = v.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..0216a38 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -98,6 +98,7 @@ func (e *MoneyFlowIndex) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
-- 
2.43.0


From 494e5c92163d7e2d190d4b66d2276dc4ec7ddc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 14/58] fix: Rma returns one entry per candle, not the series
 preceded by as many zero entries

---
 trend/Rma.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..be0ae2e 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -43,10 +43,10 @@ func (e *Rma) Calculation() *Rma {
 	e.data = make([]RmaData, len(rma))
 	for i, value := range rma {
 
-		e.data = append(e.data, RmaData{
+		e.data[i] = RmaData{
 			Time:  time.Unix(e.kline.Candles[i].TimeUnix, 0),
 			Value: value,
-		})
+		}
 	}
 
 	return e
-- 
2.43.0


From fe1bc7407337373200dbe765bd0d8b2313980016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:55 +0000
Subject: [PATCH 15/58] fix: calling Calculation again recomputes the series
 instead of appending a second copy

---
 channel/DonchianChannel.go              | 2 ++
 channel/KeltnerChannel.go               | 2 ++
 channel/UlcerIndex.go                   | 2 ++
 oscillator/AwesomeOscillator.go         | 2 ++
 oscillator/ChaikinOscillator.go         | 2 ++
 oscillator/IchimokuCloud.go             | 2 ++
 oscillator/PercentagePriceOscillator.go | 2 ++
 oscillator/ProjectionOscillator.go      | 2 ++
 oscillator/StochasticOscillator.go      | 2 ++
 oscillator/WilliamsR.go                 | 2 ++
 trend/AiCoinCCI.go                      | 2 ++
 trend/Cci.go                            | 2 ++
 trend/Ma.go                             | 2 ++
 trend/Rsi.go                            | 2 ++
 trend/StochRsi.go                       | 2 ++
 trend/StochasticHeat.go                 | 2 ++
 trend/Vortex.go                         | 2 ++
 volume/AccumulationDistribution.go      | 2 ++
 volume/ChaikinMoneyFlow.go              | 2 ++
 volume/EaseOfMovement.go                | 2 ++
 volume/ForceIndex.go                    | 2 ++
 volume/MoneyFlowIndex.go                | 2 ++
 volume/NegativeVolumeIndex.go           | 2 ++
 volume/Obv.go                           | 2 ++
 volume/VolumePriceTrend.go              | 2 ++
 volume/Vwma.go                          | 2 ++
 26 files changed, 52 insertions(+)

diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 9b7c55a..05ca866 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -50,6 +50,8 @@ func NewDefaultDonchianChannel(klineItem *klines.Item) *DonchianChannel {
 // Calculation Func
 func (e *DonchianChannel) Calculation() *DonchianChannel {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var closing = e.kline.GetOHLC().Close
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f0312ba..b26dfb0 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -51,6 +51,8 @@ func NewDefaultKeltnerChannel(klineItem *klines.Item) *KeltnerChannel {
 // Calculation Func
 func (e *KeltnerChannel) Calculation() *KeltnerChannel {
 
+	e.data = nil
+
 	var period = e.Period
 
 	_, atr := trend.NewAtr(e.kline, period).GetValues()
diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..49abc23 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -47,6 +47,8 @@ func NewDefaultUlcerIndex(klineItem *klines.Item) *UlcerIndex {
 // Calculation Func
 func (e *UlcerIndex) Calculation() *UlcerIndex {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var closing = e.kline.GetOHLC().Close
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 24d7489..a3f6113 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -35,6 +35,8 @@ func NewAwesomeOscillator(klineItem *klines.Item) *AwesomeOscillator {
 // Calculation Func
 func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
 	var low = ohlc.Low
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index 35c36fa..5b5fcde 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -50,6 +50,8 @@ func NewDefaultChaikinOscillator(klineItem *klines.Item) *ChaikinOscillator {
 // Calculation Func
 func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
 
+	e.data = nil
+
 	ad := volume.NewAccumulationDistribution(e.kline).GetValues()
 
 	fastEMA := ta.Ema(e.FastPeriod, ad)
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 9bb8273..de43186 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -60,6 +60,8 @@ func NewDefaultIchimokuCloud(klineItem *klines.Item) *IchimokuCloud {
 // Calculation Func
 func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 
+	e.data = nil
+
 	conversionPeriod := e.ConversionPeriod
 	leadingSpanBPeriod := e.LeadingSpanBPeriod
 	laggingLinePeriod := e.LaggingLinePeriod
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 472135d..0e136ea 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -54,6 +54,8 @@ func NewDefaultPercentagePriceOscillator(klineItem *klines.Item) *PercentagePric
 // Calculation Func
 func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
 
+	e.data = nil
+
 	var fastPeriod = e.FastPeriod
 	var slowPeriod = e.SlowPeriod
 	var signalPeriod = e.SignalPeriod
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index 83dd3f0..56cd18a 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -48,6 +48,8 @@ func NewDefaultProjectionOscillator(klineItem *klines.Item) *ProjectionOscillato
 // Calculation Func
 func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
 
+	e.data = nil
+
 	period := e.Period
 	smooth := e.Smooth
 	var ohlc = e.kline.GetOHLC()
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index b1684f6..4559d98 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -49,6 +49,8 @@ func NewDefaultStochasticOscillator(klineItem *klines.Item) *StochasticOscillato
 // Calculation Func
 func (e *StochasticOscillator) Calculation() *StochasticOscillator {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var ohlc = e.kline.GetOHLC()
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index ceab412..a47f8a2 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -47,6 +47,8 @@ func NewDefaultWilliamsR(klineItem *klines.Item) *WilliamsR {
 // Calculation Func
 func (e *WilliamsR) Calculation() *WilliamsR {
 
+	e.data = nil
+
 	var period = e.Period
 
 	var ohlc = e.kline.GetOHLC()
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e71d628..01e1beb 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -61,6 +61,8 @@ func ComputeCCI(close, matp, md []float64) []float64 {
 // Calculation Func
 func (e *AiCoinCCI) Calculation() *AiCoinCCI {
 
+	e.data = nil
+
 	close := e.kline.GetOHLC().Close
 
 	ccis := ta.AiCoinCCI(close, e.Period, e.factor)
diff --git a/trend/Cci.go b/trend/Cci.go
index e91e053..774519c 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -69,6 +69,8 @@ func NewDefaultCci(klineItem *klines.Item) *Cci {
 // Calculation Func
 func (e *Cci) Calculation() *Cci {
 
+	e.data = nil
+
 	hlc3 := e.kline.HLC3()
 
 	ccis := ta.CCI(hlc3, e.Period, e.SMAPeriod)
diff --git a/trend/Ma.go b/trend/Ma.go
index 48e6802..c28d943 100644
--- a/trend/Ma.go
+++ b/trend/Ma.go
@@ -48,6 +48,8 @@ func (e *Ma) GetData() []MaData {
 // Calculation Func
 func (e *Ma) Calculation() *Ma {
 
+	e.data = nil
+
 	closes := e.kline.GetOHLC().Close
 
 	// get maData
diff --git a/trend/Rsi.go b/trend/Rsi.go
index f3a2ed7..c769d4b 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -39,6 +39,8 @@ func NewDefaultRsi(klineItem *klines.Item) *Rsi {
 // Calculation Func
 func (e *Rsi) Calculation() *Rsi {
 
+	e.data = nil
+
 	rsiArray := e.rsi(e.kline.GetOHLC().Close, e.Period)
 
 	rsiArrayLen := len(rsiArray)
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index ba78ad8..1054b2e 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -48,6 +48,8 @@ func NewDefaultStochRsi(klineItem *klines.Item) *StochRsi {
 // Calculation Func
 func (e *StochRsi) Calculation() *StochRsi {
 
+	e.data = nil
+
 	rsi := NewRsi(e.kline, e.RsiLength).GetValue()
 
 	highestHigh := ta.Max(e.StochLength, rsi)
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 46d0009..9e20a15 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -58,6 +58,8 @@ func NewDefaultStochasticHeat(klineItem *klines.Item) *StochasticHeat {
 // Calculation Func
 func (e *StochasticHeat) Calculation() *StochasticHeat {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var highs = ohlc.High
 	var lows = ohlc.Low
diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..0adf564 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -40,6 +40,8 @@ func NewDefaultVortex(klineItem *klines.Item) *Vortex {
 // Calculation Func
 func (e *Vortex) Calculation() *Vortex {
 
+	e.data = nil
+
 	period := e.Period
 
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/AccumulationDistribution.go b/volume/AccumulationDistribution.go
index 23bcba0..cde2c70 100644
--- a/volume/AccumulationDistribution.go
+++ b/volume/AccumulationDistribution.go
@@ -46,6 +46,8 @@ func NewDefaultAccumulationDistribution(klineItem *klines.Item) *AccumulationDis
 // Calculation Func
 func (e *AccumulationDistribution) Calculation() *AccumulationDistribution {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
 	var low = ohlc.Low
diff --git a/volume/ChaikinMoneyFlow.go b/volume/ChaikinMoneyFlow.go
index 6f33759..d5fea2e 100644
--- a/volume/ChaikinMoneyFlow.go
+++ b/volume/ChaikinMoneyFlow.go
@@ -51,6 +51,8 @@ func NewDefaultChaikinMoneyFlow(klineItem *klines.Item) *ChaikinMoneyFlow {
 // Calculation Func
 func (e *ChaikinMoneyFlow) Calculation() *ChaikinMoneyFlow {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/EaseOfMovement.go b/volume/EaseOfMovement.go
index 513c2f9..d2e6e5c 100644
--- a/volume/EaseOfMovement.go
+++ b/volume/EaseOfMovement.go
@@ -47,6 +47,8 @@ func NewDefaultEaseOfMovement(klineItem *klines.Item) *EaseOfMovement {
 // Calculation Func
 func (e *EaseOfMovement) Calculation() *EaseOfMovement {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/ForceIndex.go b/volume/ForceIndex.go
index d6f095b..3860fce 100644
--- a/volume/ForceIndex.go
+++ b/volume/ForceIndex.go
@@ -43,6 +43,8 @@ func NewDefaultForceIndex(klineItem *klines.Item) *ForceIndex {
 // Calculation Func
 func (e *ForceIndex) Calculation() *ForceIndex {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index 0216a38..efd65a6 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -50,6 +50,8 @@ func NewDefaultMoneyFlowIndex(klineItem *klines.Item) *MoneyFlowIndex {
 // Calculation Func
 func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/NegativeVolumeIndex.go b/volume/NegativeVolumeIndex.go
index c8a659e..a4139ca 100644
--- a/volume/NegativeVolumeIndex.go
+++ b/volume/NegativeVolumeIndex.go
@@ -45,6 +45,8 @@ func NewDefaultNegativeVolumeIndex(klineItem *klines.Item) *NegativeVolumeIndex
 // Calculation Func
 func (e *NegativeVolumeIndex) Calculation() *NegativeVolumeIndex {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
diff --git a/volume/Obv.go b/volume/Obv.go
index 644a48c..1f56eae 100644
--- a/volume/Obv.go
+++ b/volume/Obv.go
@@ -34,6 +34,8 @@ func NewObv(klineItem *klines.Item) *Obv {
 // Calculation Func
 func (e *Obv) Calculation() *Obv {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var closes = ohlc.Close
 	var volumes = ohlc.Volume
diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..adf22d4 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -43,6 +43,8 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 // Calculation Func
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 
+	e.data = nil
+
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/Vwma.go b/volume/Vwma.go
index a0efa2a..d09da40 100644
--- a/volume/Vwma.go
+++ b/volume/Vwma.go
@@ -46,6 +46,8 @@ func NewDefaultVwma(klineItem *klines.Item) *Vwma {
 // Calculation Func
 func (e *Vwma) Calculation() *Vwma {
 
+	e.data = nil
+
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
-- 
2.43.0


From 143dd4434ddf1130bd785f001a4b02c6d9023d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:17 +0000
Subject: [PATCH 16/58] fix: Boll bands are PeriodK standard deviations wide as
 documented, not always one

---
 channel/Boll.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index fc2ab00..abcab86 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -100,8 +100,9 @@ func (e *Boll) Calculation() *Boll {
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
-	var upper = ta.Add(middle, md)
-	var lower = ta.Subtract(middle, md)
+	var width = ta.MultiplyBy(md, float64(e.PeriodK))
+	var upper = ta.Add(middle, width)
+	var lower = ta.Subtract(middle, width)
 
 	for i := range middle {
 		e.data[i] = BollData{
-- 
2.43.0


From 75d9eb3e11aba831d6b6e83431bcabea79bd3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:17 +0000
Subject: [PATCH 17/58] fix: Boll can signal a close crossing below the lower
 band, which compared the previous close with itself

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index abcab86..8e91e89 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -141,7 +141,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 		if price > v.Upper && prevPrice < prevItem.Upper {
 			sides[i] = utils.Buy
-		} else if price < v.Lower && prevPrice > prevPrice {
+		} else if price < v.Lower && prevPrice > prevItem.Lower {
 			sides[i] = utils.Sell
 		} else {
 			sides[i] = utils.Hold
-- 
2.43.0


From c631ad8db76d457fbc0a14ad32dd1ff83d78b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 18/58] fix: Boll bands of a flat series are not NaN when
 rounding makes the variance negative

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 8e91e89..d531054 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -83,7 +83,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 		if i < period-1 {
 			result[i] = 0.0
 		} else {
-			result[i] = math.Sqrt(sum2/float64(period) - sma[i]*sma[i])
+			result[i] = math.Sqrt(math.Max(sum2/float64(period)-sma[i]*sma[i], 0))
 			w := e.kline.Candles[i-(period-1)].Close
 			sum2 -= w * w
 		}
-- 
2.43.0


From 3d4954395b39f95b4c9b4cc51c46c4e63279db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 19/58] fix: Atr's true range counts gaps down and is high-low,
 not the high, on the first candle

---
 trend/Atr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 56d4b84..dd0dcbc 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -52,11 +52,11 @@ func (e *Atr) Calculation() *Atr {
 		// klineItem := e.kline[i]
 		var AtrPointStruct AtrData
 		// TR= | 最高价 - 最低价 | 和 | 最高价 - 昨日收盘价 | 和 | 昨日收盘价 - 最低价 | 的最大值
-		var prevClose float64
+		tr[i] = highs[i] - lows[i]
 		if i != 0 {
-			prevClose = closes[i-1]
+			prevClose := closes[i-1]
+			tr[i] = math.Max(tr[i], math.Max(math.Abs(highs[i]-prevClose), math.Abs(prevClose-lows[i])))
 		}
-		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, lows[i]-prevClose))
 		AtrPointStruct.Time = time.Unix(e.kline.Candles[i].TimeUnix, 0)
 	}
 	var atr = ta.Rma(e.Period, tr)
-- 
2.43.0


From 20f425990af48e2e883cd2343d508ed0934899b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:19 +0000
Subject: [PATCH 20/58] fix: IchimokuCloud conversion line uses
 ConversionPeriod for the high too

---
 oscillator/IchimokuCloud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index de43186..d4cba54 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -71,7 +71,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 	var closing = ohlc.Close
 
 	// 转换线
-	conversionLine := ta.DivideBy(ta.Add(ta.Max(9, high), ta.Min(conversionPeriod, low)), float64(2))
+	conversionLine := ta.DivideBy(ta.Add(ta.Max(conversionPeriod, high), ta.Min(conversionPeriod, low)), float64(2))
 	// 基线
 	baseLine := ta.DivideBy(ta.Add(ta.Max(26, high), ta.Min(26, low)), float64(2))
 	// 先行带A（Senkou Span A）：通过转换线和基线的移动平均值预计未来26日内趋势
-- 
2.43.0


From eabfda1bb908a61dbca5a5d3041635a233771997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:20 +0000
Subject: [PATCH 21/58] fix: AwesomeOscillator is the difference of simple
 averages as documented

---
 oscillator/AwesomeOscillator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index a3f6113..73918f0 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -42,8 +42,8 @@ func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 	var low = ohlc.Low
 
 	medianPrice := ta.DivideBy(ta.Add(low, high), float64(2))
-	sma5 := ta.Ema(5, medianPrice)
-	sma34 := ta.Ema(34, medianPrice)
+	sma5 := ta.Sma(5, medianPrice)
+	sma34 := ta.Sma(34, medianPrice)
 	ao := ta.Subtract(sma5, sma34)
 
 	for i := 0; i < len(ao); i++ {
-- 
2.43.0


From 7608968160573625404b1adf49132130c7f2c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:20 +0000
Subject: [PATCH 22/58] fix: UlcerIndex averages with the simple moving average
 as documented

---
 channel/UlcerIndex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 49abc23..097c2da 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -55,7 +55,7 @@ func (e *UlcerIndex) Calculation() *UlcerIndex {
 
 	highClosing := ta.Max(period, closing)
 	percentageDrawdown := ta.MultiplyBy(ta.Divide(ta.Subtract(closing, highClosing), highClosing), 100)
-	squaredAverage := ta.Ema(period, ta.Multiply(percentageDrawdown, percentageDrawdown))
+	squaredAverage := ta.Sma(period, ta.Multiply(percentageDrawdown, percentageDrawdown))
 
 	ui := ta.Sqrt(squaredAverage)
 
-- 
2.43.0


From da5b14cfe1ea2df907aca147ddbb7bcb93482487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 23/58] fix: WilliamsR of a flat window is 0, not NaN

---
 oscillator/WilliamsR.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index a47f8a2..8c9d367 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -59,11 +59,7 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 	highestHigh := ta.Max(period, high)
 	lowestLow := ta.Min(period, low)
 
-	result := make([]float64, len(closing))
-
-	for i := 0; i < len(closing); i++ {
-		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
-	}
+	result := ta.MultiplyBy(ta.Divide(ta.Subtract(highestHigh, closing), ta.Subtract(highestHigh, lowestLow)), float64(-100))
 
 	for i := 0; i < len(result); i++ {
 		e.data = append(e.data, WilliamsRData{
-- 
2.43.0


From 50ceeb754a4c3e04491ca8deeac08d70a770e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 24/58] fix: CCI of a flat window is 0, not NaN

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 2034bda..fb6299c 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -423,6 +423,9 @@ func CCI(hlc3 []float64, period, smaPeriod int) []float64 {
 
 	// 计算CCI值
 	for i := period - 1; i < len(hlc3); i++ {
+		if md[i] == 0 {
+			continue
+		}
 		typicalPrice := typicalPrices[i]
 		cci := (typicalPrice - ma[i]) / (0.015 * md[i])
 		ccis[i] = cci
-- 
2.43.0


From 060bcfb52339ed4a31c1a87417ef6feb3cb4decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:46 +0000
Subject: [PATCH 25/58] fix: ADX is 0, not NaN, while nothing has moved in
 either direction

---
 trend/AverageDirectionalIndex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..f7ad8e7 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -122,8 +122,14 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	dx := make([]float64, len(close))
 
 	for i := e.Period - 1; i < len(close); i++ {
+		if smoothedTR[i] == 0 {
+			continue
+		}
 		plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
 		minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
+		if plusDI[i]+minusDI[i] == 0 {
+			continue
+		}
 		dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / (plusDI[i] + minusDI[i]))
 	}
 
-- 
2.43.0


From 65dd91e60782951f572018253bd8eb486fefb5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 26/58] fix: Vortex of a flat window is 0, not NaN

---
 trend/Vortex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 0adf564..1c1792f 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -77,8 +77,10 @@ func (e *Vortex) Calculation() *Vortex {
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
 		trSum += tr[j]
 
-		plusVi[i] = plusVmSum / trSum
-		minusVi[i] = minusVmSum / trSum
+		if trSum != 0 {
+			plusVi[i] = plusVmSum / trSum
+			minusVi[i] = minusVmSum / trSum
+		}
 	}
 
 	for i := 0; i < len(plusVi); i++ {
-- 
2.43.0


From a428d9fbbd9a944b3ed2a2df30010dc17d96a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 27/58] fix: Rsi of a series exactly as long as the period
 returns zeros instead of panicking

---
 trend/Rsi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index c769d4b..c19d0e5 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -107,7 +107,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
-- 
2.43.0


From 14e9763a7a5502109f57815c9b0ca02c958771eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:17 +0000
Subject: [PATCH 28/58] fix: Kdj treats a window as flat only when it is, not
 whenever a low-priced coin moves less than 0.000001

---
 trend/Kdj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 7e8c536..0903459 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -159,7 +159,7 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 			lowest := e.arrayLowest(periodLowArr)
 			highest := e.arrayHighest(periodHighArr)
 
-			if highest-lowest < 0.000001 {
+			if highest == lowest {
 				rsv[i] = 100
 			} else {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
-- 
2.43.0


From fd4de0aa14231c6b5f42c699c20cb78af04d5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:18 +0000
Subject: [PATCH 29/58] fix: Kdj with period 1 starts from 50 instead of
 panicking on the first candle

---
 trend/Kdj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 0903459..a28f05f 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -165,8 +165,12 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
 			}
 
-			k[i] = (2.0/3)*k[i-1] + 1.0/3*rsv[i]
-			d[i] = (2.0/3)*d[i-1] + 1.0/3*k[i]
+			prevK, prevD := 50.0, 50.0
+			if i > 0 {
+				prevK, prevD = k[i-1], d[i-1]
+			}
+			k[i] = (2.0/3)*prevK + 1.0/3*rsv[i]
+			d[i] = (2.0/3)*prevD + 1.0/3*k[i]
 			// remove first value in array.
 			periodLowArr = periodLowArr[1:]
 			periodHighArr = periodHighArr[1:]
-- 
2.43.0


From 9ae22f61e8033accfda80541619ccfa9a4bec864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:18 +0000
Subject: [PATCH 30/58] fix: Kdj GetListK, GetListD and GetListJ calculate
 first like every other getter

---
 trend/Kdj.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index a28f05f..b7d33f2 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -105,6 +105,10 @@ func (e *Kdj) GetData() []KdjData {
 
 // GetListK Func
 func (e *Kdj) GetListK() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.K)
@@ -114,6 +118,10 @@ func (e *Kdj) GetListK() []float64 {
 
 // GetListD Func
 func (e *Kdj) GetListD() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.D)
@@ -123,6 +131,10 @@ func (e *Kdj) GetListD() []float64 {
 
 // GetListJ Func
 func (e *Kdj) GetListJ() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.J)
-- 
2.43.0


From e378c08e6ad8ba7e25c507b1c26ae187fb46b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:19 +0000
Subject: [PATCH 31/58] fix: AiCoinCCI uses its factor argument

---
 utils/ta/ta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index fb6299c..e98c869 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -451,7 +451,7 @@ func AiCoinCCI(close []float64, period int, factor float64) []float64 {
 			cci[i] = 0 // 或者 math.NaN()
 			continue
 		}
-		cci[i] = (close[i] - matp[i]) / (0.015 * md[i])
+		cci[i] = (close[i] - matp[i]) / (factor * md[i])
 	}
 	return cci
 
-- 
2.43.0


From 2c8458e9d8bffee35d8485c8a9f355d209d12e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:43 +0000
Subject: [PATCH 32/58] fix: removing an order block that is not listed keeps
 the list instead of dropping it

---
 trend/SmartMoneyConcepts_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts_type.go b/trend/SmartMoneyConcepts_type.go
index 2b71777..b189c8f 100644
--- a/trend/SmartMoneyConcepts_type.go
+++ b/trend/SmartMoneyConcepts_type.go
@@ -51,5 +51,5 @@ func (e SmartMoneyConceptsDataOrderBlockList) Remove(k SmartMoneyConceptsDataOrd
 		}
 	}
 
-	return nil
+	return list
 }
-- 
2.43.0


From 394e7386d86edf26fe54985d9a54b9e37b935e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 33/58] fix: MoneyFlowIndex is 100, not 0, when no money flowed
 out

---
 volume/MoneyFlowIndex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index efd65a6..a687a76 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -71,11 +71,11 @@ func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 	positiveMoneyFlow := ta.KeepPositives(moneyFlow)
 	negativeMoneyFlow := ta.KeepNegatives(moneyFlow)
 
-	moneyRatio := ta.Divide(
-		ta.Sum(period, positiveMoneyFlow),
-		ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1)))
+	positive := ta.Sum(period, positiveMoneyFlow)
+	negative := ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1))
 
-	moneyFlowIndex := ta.AddBy(ta.MultiplyBy(ta.Pow(ta.AddBy(moneyRatio, 1), -1), -100), 100)
+	// 100 - (100 / (1 + positive / negative)), also where negative is 0
+	moneyFlowIndex := ta.MultiplyBy(ta.Divide(positive, ta.Add(positive, negative)), 100)
 
 	for i := 0; i < len(moneyFlowIndex); i++ {
 		e.data = append(e.data, MoneyFlowIndexData{
-- 
2.43.0


From 887e2d6af1980852de7d4a9b205c3766fe7f5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:45 +0000
Subject: [PATCH 34/58] fix: VolumePriceTrend of an empty series is empty
 instead of panicking

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index adf22d4..3af3264 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -50,6 +50,10 @@ func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
 
+	if len(closing) == 0 {
+		return e
+	}
+
 	previousClosing := ta.ShiftRightAndFillBy(period, closing[0], closing)
 	vpt := ta.Multiply(volume, ta.Divide(ta.Subtract(closing, previousClosing), previousClosing))
 	vals := ta.Sum(len(vpt), vpt)
-- 
2.43.0


From a37661fc40e59e6c3d85e4d50fa1e29d43ef3706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:46 +0000
Subject: [PATCH 35/58] fix: BreakoutProbability counts lower lows, not higher
 lows, as breaks below the previous low

---
 trend/BreakoutProbability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 0446063..4677940 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -225,7 +225,7 @@ func (e *BreakoutProbability) score(x float64, rowIndex int, green, red bool, to
 	rtotal := total[5][1]
 
 	var hh = commonutils.If(high > highPrev+x, true, false).(bool)
-	var ll = commonutils.If(low > lowPrev-x, true, false).(bool)
+	var ll = commonutils.If(low < lowPrev-x, true, false).(bool)
 
 	if green && hh {
 		total[rowIndex][0] = ghh + 1
-- 
2.43.0


From aa184ebda5365dc41d87133120e3d0de923d9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 36/58] fix: SmartMoneyConcepts classifies a long break of the
 low by the long trend, as its Pine original does

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b22def..5d2ea21 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -313,7 +313,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		if ta.CrossUnder(closes[:i+1], btm_y) && btm_cross {
 
 			var choch = false
-			if itrend > 0 {
+			if trend > 0 {
 				choch = true
 			}
 
-- 
2.43.0


From 0d6ece9f7f11f08a142fd916e8031394c7995104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 37/58] fix: calculating SmartMoneyConcepts again starts from a
 clean state

---
 trend/SmartMoneyConcepts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 5d2ea21..063a2bd 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,10 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	e.OrderBlockBullish, e.OrderBlockBearish = nil, nil
+	e.os1Prev, e.os2Prev, e.idxPrevBullish, e.idxPrevBearish = 0, 0, 0, 0
+	e.StrongHigh, e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+	e.StrongLow, e.WeakLow = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
 
 	var trend = 0
 	var itrend = 0
-- 
2.43.0


From 697320da267ec270b8d99196a6db5b69eff392ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:42 +0000
Subject: [PATCH 38/58] fix: SmartMoneyConcepts with a swing length below 5
 waits for the 5 bars of the short structure instead of panicking

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 063a2bd..8837739 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -189,7 +189,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			trail_dn = low
 		}
 
-		if i < e.SwingLenght {
+		if i < e.SwingLenght || i < 5 {
 			continue
 		}
 
-- 
2.43.0


From f6d922d9eeb2b7dc48f64267528639dd0fd25634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:42 +0000
Subject: [PATCH 39/58] fix: every data point carries its candle's time, the
 first ones too

---
 trend/BreakoutProbability.go  | 4 ++++
 trend/PivotPointSuperTrend.go | 3 +++
 trend/SmartMoneyConcepts.go   | 6 ++++--
 trend/UTBot.go                | 1 +
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 4677940..90d49b2 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -109,6 +109,10 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 	}()
 
 	e.data = make([]BreakoutProbabilityData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
+
 	for i := 1; i < len(closes); i++ {
 
 		var dataItem = BreakoutProbabilityData{
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a5d6fea..8f3458a 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -90,6 +90,9 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 
 	e.data = make([]PivotPointSuperTrendData, len(closes))
 
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 	for i := 1; i < len(closes); i++ {
 
 		var c = closes[i]
diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 8837739..e18a4a7 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -174,12 +174,15 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		lows = nil
 	}()
 
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
+
 	for i := 1; i < len(closes); i++ {
 
 		var close = closes[i]
 		var high = highs[i]
 		var low = lows[i]
-		var timeUnix = times[i]
 
 		if trail_up == 0.0 {
 			trail_up = high
@@ -435,7 +438,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			}
 		}
 
-		e.data[i].Time = time.Unix(timeUnix, 0)
 	}
 
 	return e
diff --git a/trend/UTBot.go b/trend/UTBot.go
index 07d2c39..b95724a 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -73,6 +73,7 @@ func (e *UTBot) Calculation() *UTBot {
 	e.data = make([]UTBotData, len(closes))
 	for i, close := range closes {
 		if i == 0 {
+			e.data[i] = UTBotData{Time: time.Unix(times[i], 0), Close: close}
 			continue
 		}
 		// var prevClose = closeing[i-1]
-- 
2.43.0


From 67b0408b6fa13a919b01fde4780c3dd0ce8e313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 40/58] fix: SuperTrend's alternative ATR is an average true
 range in price units, not a percentage

---
 trend/SuperTrend.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 1086142..cf0d526 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -95,8 +95,7 @@ func (e *SuperTrend) Calculation() *SuperTrend {
 	if e.ChangeAtr {
 		atr = ta.Atr(highs, lows, closes, e.AtrPeriod)
 	} else {
-		natr := ta.Natr(highs, lows, closes, e.AtrPeriod)
-		atr = ta.Sma(e.AtrPeriod, natr)
+		atr = ta.Sma(e.AtrPeriod, ta.TRange(highs, lows, closes))
 	}
 
 	for i := 0; i < len(src); i++ {
-- 
2.43.0


From 0a03a265c882429b86e4d969216fd21b8e775b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 41/58] fix: ReversalSignals accepts equal lows for a buy as it
 accepts equal highs for a sell

---
 trend/ReversalSignals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/ReversalSignals.go b/trend/ReversalSignals.go
index f0e27b2..63ad9ed 100644
--- a/trend/ReversalSignals.go
+++ b/trend/ReversalSignals.go
@@ -86,7 +86,7 @@ func (e *ReversalSignals) Calculation() *ReversalSignals {
 		}
 
 		var pbs bool
-		if (low <= lows[i-3] && low <= lows[i-2]) || (lows[i-1] < lows[i-3] && lows[i-1] <= lows[i-2]) {
+		if (low <= lows[i-3] && low <= lows[i-2]) || (lows[i-1] <= lows[i-3] && lows[i-1] <= lows[i-2]) {
 			pbs = true
 		}
 		if bullishCount == 9 && pbs {
-- 
2.43.0


From fda6f14a93446942a548334c8a78cf89adf04382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 42/58] fix: CheckEquals compares every pair to its end, not
 only until the first pair ends

---
 helpertools/CheckEquals.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/helpertools/CheckEquals.go b/helpertools/CheckEquals.go
index f4dcf2a..073f75e 100644
--- a/helpertools/CheckEquals.go
+++ b/helpertools/CheckEquals.go
@@ -15,6 +15,7 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 	i := 0
 
 	for {
+		ended := 0
 		for j := 0; j < len(inputs); j += 2 {
 			actual, actualOk := <-inputs[j]
 			expected, expectedOk := <-inputs[j+1]
@@ -24,7 +25,8 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 					return fmt.Errorf("not ended the same actual %v expected %v", actualOk, expectedOk)
 				}
 
-				return nil
+				ended += 2
+				continue
 			}
 
 			if !reflect.DeepEqual(actual, expected) {
@@ -32,6 +34,9 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 			}
 		}
 
+		if ended == len(inputs) {
+			return nil
+		}
 		i++
 	}
 }
-- 
2.43.0


From 60ffd735f0cd52842affab7b3fcd8791ffb57c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 43/58] fix: a bullish order block ends when the close falls
 below its low, as its Pine original, not below its close

---
 trend/SmartMoneyConcepts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index e18a4a7..f81e8e6 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -346,7 +346,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var orderBlockBullishList = e.OrderBlockBullish
 		var orderBlockBullishRemovelist SmartMoneyConceptsDataOrderBlockList
 		for j, v := range orderBlockBullishList {
-			if close < v.Close && !v.IsTop {
+			if close < v.Low && !v.IsTop {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
 			} else if close > v.High && v.IsTop {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
@@ -362,7 +362,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var orderBlockBearishList = e.OrderBlockBearish
 		var orderBlockBearishRemovelist SmartMoneyConceptsDataOrderBlockList
 		for j, v := range orderBlockBearishList {
-			if close < v.Close && !v.IsTop {
+			if close < v.Low && !v.IsTop {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
 			} else if close > v.High && v.IsTop {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
-- 
2.43.0


From 3ae192ff619b6a2c40f3850fd8adf9f9754c1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 44/58] fix: SmartMoneyConcepts keeps at most OrderBlockNumber
 order blocks, not one more

---
 trend/SmartMoneyConcepts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index f81e8e6..9097d87 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -351,7 +351,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			} else if close > v.High && v.IsTop {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
 			}
-			if j > e.OrderBlockNumber && !orderBlockBullishRemovelist.Contains(v) {
+			if j >= e.OrderBlockNumber && !orderBlockBullishRemovelist.Contains(v) {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
 			}
 		}
@@ -367,7 +367,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			} else if close > v.High && v.IsTop {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
 			}
-			if j > e.OrderBlockNumber && !orderBlockBearishRemovelist.Contains(v) {
+			if j >= e.OrderBlockNumber && !orderBlockBearishRemovelist.Contains(v) {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
 			}
 		}
-- 
2.43.0


From bcae936beb458982090941ae3b52c76995728b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 45/58] fix: an order block without a qualifying candle is the
 one before the break, as in its Pine original, not the series' second candle

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9097d87..ec146e6 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -447,7 +447,7 @@ func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, a
 
 	var min = 99999999.0
 	var max = 0.0
-	var idx = 1
+	var idx = index - 1
 	var ob_threshold = atr
 
 	if useMax {
-- 
2.43.0


From c117fd0fbe806522ded941dcec46db1093e62fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 46/58] fix: SmartMoneyConcepts trails the extremes from the
 first candle, as its Pine original, not only from the swing length on

---
 trend/SmartMoneyConcepts.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index ec146e6..e2d2abe 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -185,14 +185,20 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var low = lows[i]
 
 		if trail_up == 0.0 {
-			trail_up = high
+			trail_up = highs[0]
 		}
 
 		if trail_dn == 0.0 {
-			trail_dn = low
+			trail_dn = lows[0]
 		}
 
 		if i < e.SwingLenght || i < 5 {
+			if high >= trail_up {
+				trail_up, trail_up_x = high, i
+			}
+			if low <= trail_dn {
+				trail_dn, trail_dn_x = low, i
+			}
 			continue
 		}
 
-- 
2.43.0


From bb8059d476f64661ba76ff77b58249e289d612fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:33 +0000
Subject: [PATCH 47/58] fix: ConvertToNewInterval adds up Amount and Count like
 Volume instead of dropping them

---
 utils/klines/kline.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 35920a5..a9e8e24 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -122,6 +122,8 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix || (e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds()))) {
 			candles[target].Volume += e.Candles[x].Volume
+			candles[target].Amount += e.Candles[x].Amount
+			candles[target].Count += e.Candles[x].Count
 		}
 		if (e.Candles[x].TimeUnix + int64(e.Interval.Duration().Seconds())) == (candles[target].TimeUnix + int64(newInterval.Duration().Seconds())) {
 			candles[target].Close = e.Candles[x].Close
-- 
2.43.0


From af00c35dc156a872eaf6c080351188417420d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 48/58] fix: the average of equal values is exactly that value
 and values that left the window leave no rounding error, so CCI of a flat
 market is 0

---
 utils/ta/ta.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index e98c869..dfda94c 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -251,30 +251,36 @@ func MA(source []float64, length int) []float64 {
 	}
 
 	for i := length - 1; i < n; i++ {
-		var sum float64
-		for j := i - length + 1; j <= i; j++ {
-			sum += source[j]
-		}
-		ma[i] = sum / float64(length)
+		ma[i] = windowMean(source[i-length+1 : i+1])
 	}
 	return ma
 }
 
+// windowMean 计算一个窗口的平均值。
+// 以窗口内第一个值为基准求和，数值完全相同的窗口得到的就是该值本身，不带舍入误差。
+func windowMean(window []float64) float64 {
+	if len(window) == 0 {
+		return math.NaN()
+	}
+	base, sum := window[0], 0.0
+	for _, v := range window[1:] {
+		sum += v - base
+	}
+	return base + sum/float64(len(window))
+}
+
 // 简单移动均线简写为SMA，有时候也直接记为MA。 移动平均线，SMA(N)它将指定周期内的收盘价格之和除以周期N得到的一个指标
 func Sma(period int, values []float64) []float64 {
 	result := make([]float64, len(values))
-	sum := float64(0)
-
-	for i, value := range values {
-		count := i + 1
-		sum += value
 
+	for i := range values {
+		begin := 0
 		if i >= period {
-			sum -= values[i-period]
-			count = period
+			begin = i - period + 1
 		}
 
-		val := sum / float64(count)
+		// 每个窗口重新求和，已移出窗口的值不会留下舍入误差
+		val := windowMean(values[begin : i+1])
 		if math.IsNaN(val) || math.IsInf(val, -1) {
 			result[i] = 0
 		} else {
@@ -1078,11 +1084,7 @@ func Dev(source []float64, length int) []float64 {
 
 	for i := length - 1; i < n; i++ {
 		// 计算窗口内 MA
-		var sum float64
-		for j := i - length + 1; j <= i; j++ {
-			sum += source[j]
-		}
-		ma := sum / float64(length)
+		ma := windowMean(source[i-length+1 : i+1])
 
 		// 计算窗口内 dev
 		var devSum float64
-- 
2.43.0


From ae57196f9bd475776f2c51a88588812a3dc336f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 49/58] fix: Wma sums every window anew, values that left it
 leave no rounding error behind

---
 utils/ta/ta.go | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index dfda94c..e07f009 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -377,30 +377,13 @@ func Wma(period int, values []float64) []float64 {
 		return result
 	}
 	divider := (period * (period + 1)) >> 1
-	outIdx := period - 1
-	trailingIdx := startIdx - lookbackTotal
-	periodSum, periodSub := 0.0, 0.0
-	inIdx := trailingIdx
-	i := 1
-	for inIdx < startIdx {
-		tempReal := values[inIdx]
-		periodSub += tempReal
-		periodSum += tempReal * float64(i)
-		inIdx++
-		i++
-	}
-	trailingValue := 0.0
-	for inIdx < len(values) {
-		tempReal := values[inIdx]
-		periodSub += tempReal
-		periodSub -= trailingValue
-		periodSum += tempReal * float64(period)
-		trailingValue = values[trailingIdx]
-		result[outIdx] = periodSum / float64(divider)
-		periodSum -= periodSub
-		inIdx++
-		trailingIdx++
-		outIdx++
+	for i := startIdx; i < len(values); i++ {
+		// 每个窗口重新求和，已移出窗口的值不会留下舍入误差
+		periodSum := 0.0
+		for j, value := range values[i-lookbackTotal : i+1] {
+			periodSum += value * float64(j+1)
+		}
+		result[i] = periodSum / float64(divider)
 	}
 	return result
 }
-- 
2.43.0


From e036b1c002ae88be8ad9e88e144e0c1ca4245ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 50/58] fix: Sum sums every window anew, so MFI, CMF, EMV, VWMA
 and UlcerIndex keep their range after larger values left the window

---
 utils/ta/ta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index e07f009..be43267 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -943,8 +943,12 @@ func Sum(period int, values []float64) []float64 {
 	for i := 0; i < len(values); i++ {
 		sum += values[i]
 
+		// 窗口移动后重新求和，已移出窗口的值不会留下舍入误差
 		if i >= period {
-			sum -= values[i-period]
+			sum = 0
+			for _, v := range values[i-period+1 : i+1] {
+				sum += v
+			}
 		}
 
 		result[i] = sum
-- 
2.43.0


From 9d31473aea44d9c8f1c9785a4debccef443f07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 51/58] fix: Variance measures from the mean of each window, it
 is never negative and 0 when the window is flat

---
 utils/ta/ta.go | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index be43267..ac4156f 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -1024,38 +1024,16 @@ func Variance(inReal []float64, inTimePeriod int) []float64 {
 		return outReal
 	}
 
-	nbInitialElementNeeded := inTimePeriod - 1
-	startIdx := nbInitialElementNeeded
-	periodTotal1 := 0.0
-	periodTotal2 := 0.0
-	trailingIdx := startIdx - nbInitialElementNeeded
-	i := trailingIdx
-	if inTimePeriod > 1 {
-		for i < startIdx {
-			tempReal := inReal[i]
-			periodTotal1 += tempReal
-			tempReal *= tempReal
-			periodTotal2 += tempReal
-			i++
+	for i := inTimePeriod - 1; i < len(inReal); i++ {
+		// 先求窗口的平均值，再求与平均值之差的平方和，结果不会为负
+		window := inReal[i-inTimePeriod+1 : i+1]
+		mean := windowMean(window)
+		sumOfSquares := 0.0
+		for _, v := range window {
+			diff := v - mean
+			sumOfSquares += diff * diff
 		}
-	}
-	outIdx := startIdx
-	for ok := true; ok; {
-		tempReal := inReal[i]
-		periodTotal1 += tempReal
-		tempReal *= tempReal
-		periodTotal2 += tempReal
-		meanValue1 := periodTotal1 / float64(inTimePeriod)
-		meanValue2 := periodTotal2 / float64(inTimePeriod)
-		tempReal = inReal[trailingIdx]
-		periodTotal1 -= tempReal
-		tempReal *= tempReal
-		periodTotal2 -= tempReal
-		outReal[outIdx] = meanValue2 - meanValue1*meanValue1
-		i++
-		trailingIdx++
-		outIdx++
-		ok = i < len(inReal)
+		outReal[i] = sumOfSquares / float64(inTimePeriod)
 	}
 	return outReal
 }
-- 
2.43.0


From b6b2d7fd67fe70afde30b90f0858b5fb8215ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 52/58] fix: Boll takes the deviation from the mean of each
 window instead of the cancelling difference of squares

---
 channel/Boll.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index d531054..6875c03 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -77,16 +77,13 @@ func NewDefaultBoll(klineItem *klines.Item) *Boll {
 func (e *Boll) dma(sma []float64) []float64 {
 	result := make([]float64, len(e.kline.Candles))
 	period := e.PeriodN
-	sum2 := 0.0
-	for i, v := range e.kline.Candles {
-		sum2 += v.Close * v.Close
-		if i < period-1 {
-			result[i] = 0.0
-		} else {
-			result[i] = math.Sqrt(math.Max(sum2/float64(period)-sma[i]*sma[i], 0))
-			w := e.kline.Candles[i-(period-1)].Close
-			sum2 -= w * w
+	for i := period - 1; i < len(e.kline.Candles); i++ {
+		sum2 := 0.0
+		for _, v := range e.kline.Candles[i-(period-1) : i+1] {
+			diff := v.Close - sma[i]
+			sum2 += diff * diff
 		}
+		result[i] = math.Sqrt(sum2 / float64(period))
 	}
 
 	return result
-- 
2.43.0


From 95c32403ce6460fa46c5b1b8504aa298d107b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 53/58] fix: Vortex sums every window anew, values that left it
 leave no rounding error behind

---
 trend/Vortex.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 1c1792f..89f7295 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/idoall/stockindicator/utils/klines"
+	"github.com/idoall/stockindicator/utils/ta"
 )
 
 // Vortex struct
@@ -52,34 +53,29 @@ func (e *Vortex) Calculation() *Vortex {
 	plusVi := make([]float64, len(high))
 	minusVi := make([]float64, len(high))
 
-	plusVm := make([]float64, period)
-	minusVm := make([]float64, period)
-	tr := make([]float64, period)
-
-	var plusVmSum, minusVmSum, trSum float64
+	plusVm := make([]float64, len(high))
+	minusVm := make([]float64, len(high))
+	tr := make([]float64, len(high))
 
 	for i := 1; i < len(high); i++ {
-		j := i % period
-
-		plusVmSum -= plusVm[j]
-		plusVm[j] = math.Abs(high[i] - low[i-1])
-		plusVmSum += plusVm[j]
-
-		minusVmSum -= minusVm[j]
-		minusVm[j] = math.Abs(low[i] - high[i-1])
-		minusVmSum += minusVm[j]
+		plusVm[i] = math.Abs(high[i] - low[i-1])
+		minusVm[i] = math.Abs(low[i] - high[i-1])
 
 		highLow := high[i] - low[i]
 		highPrevClosing := math.Abs(high[i] - closing[i-1])
 		lowPrevClosing := math.Abs(low[i] - closing[i-1])
 
-		trSum -= tr[j]
-		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
-		trSum += tr[j]
+		tr[i] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
+	}
+
+	plusVmSum := ta.Sum(period, plusVm)
+	minusVmSum := ta.Sum(period, minusVm)
+	trSum := ta.Sum(period, tr)
 
-		if trSum != 0 {
-			plusVi[i] = plusVmSum / trSum
-			minusVi[i] = minusVmSum / trSum
+	for i := 1; i < len(high); i++ {
+		if trSum[i] != 0 {
+			plusVi[i] = plusVmSum[i] / trSum[i]
+			minusVi[i] = minusVmSum[i] / trSum[i]
 		}
 	}
 
-- 
2.43.0


From 696ea364f07c23b9dbc188e311c977b25f376926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 54/58] fix: the moving regression sums every window anew and
 from its first point, so a flat window has slope 0

---
 utils/regression.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/utils/regression.go b/utils/regression.go
index 6154ef0..7f08e79 100644
--- a/utils/regression.go
+++ b/utils/regression.go
@@ -1,5 +1,7 @@
 package utils
 
+import "math"
+
 // Least square.
 //
 // y = mx + b
@@ -10,18 +12,27 @@ package utils
 // b = (sumY - m * sumX) / n
 func LeastSquare(x, y []float64) (float64, float64) {
 
+	if len(x) == 0 {
+		return math.NaN(), math.NaN()
+	}
+
+	// Measured from the first point, so that large coordinates do not drown
+	// their differences.
+	x0, y0 := x[0], y[0]
+
 	var sumX, sumX2, sumY, sumXY float64
 
 	for i := 0; i < len(x); i++ {
-		sumX += x[i]
-		sumX2 += x[i] * x[i]
-		sumY += y[i]
-		sumXY += x[i] * y[i]
+		dx, dy := x[i]-x0, y[i]-y0
+		sumX += dx
+		sumX2 += dx * dx
+		sumY += dy
+		sumXY += dx * dy
 	}
 
 	n := float64(len(x))
 	m := ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
-	b := (sumY - (m * sumX)) / n
+	b := (sumY-(m*sumX))/n + y0 - m*x0
 
 	return m, b
 }
@@ -39,26 +50,15 @@ func MovingLeastSquare(period int, x, y []float64) ([]float64, []float64) {
 	m := make([]float64, len(x))
 	b := make([]float64, len(x))
 
-	var sumX, sumX2, sumY, sumXY float64
-
 	for i := 0; i < len(x); i++ {
-		sumX += x[i]
-		sumX2 += x[i] * x[i]
-		sumY += y[i]
-		sumXY += x[i] * y[i]
-
-		n := float64(i + 1)
-
+		begin := 0
 		if i >= period {
-			sumX -= x[i-period]
-			sumX2 -= x[i-period] * x[i-period]
-			sumY -= y[i-period]
-			sumXY -= x[i-period] * y[i-period]
-			n = float64(period)
+			begin = i - period + 1
 		}
 
-		m[i] = ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
-		b[i] = (sumY - (m[i] * sumX)) / n
+		// Every window is summed anew: values that left it leave no rounding
+		// error behind.
+		m[i], b[i] = LeastSquare(x[begin:i+1], y[begin:i+1])
 	}
 
 	return m, b
-- 
2.43.0


From 96878dd954334839241729d233ecc1ad0c9605f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:40 +0000
Subject: [PATCH 55/58] fix: the linear regressions sum every window anew,
 values that left it leave no rounding error behind

---
 utils/ta/ta.go | 88 ++++++++++++++++----------------------------------
 1 file changed, 28 insertions(+), 60 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index ac4156f..3b90026 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -25,22 +25,14 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 	sumX := inTimePeriodF * (inTimePeriodF - 1) * 0.5
 	sumXSqr := inTimePeriodF * (inTimePeriodF - 1) * (2*inTimePeriodF - 1) / 6
 	divisor := sumX*sumX - inTimePeriodF*sumXSqr
-	//initialize values of sumY and sumXY over first (inTimePeriod) input values
-	sumXY := 0.0
-	sumY := 0.0
-	i := inTimePeriod
-	for i != 0 {
-		i--
-		tempValue1 := inReal[today-i]
-		sumY += tempValue1
-		sumXY += float64(i) * tempValue1
-	}
 	for today < len(inReal) {
-		//sumX and sumXY are already available for first output value
-		if today > startIdx-1 {
-			tempValue2 := inReal[today-inTimePeriod]
-			sumXY += sumY - inTimePeriodF*tempValue2
-			sumY += inReal[today] - tempValue2
+		// 每个窗口重新求和，已移出窗口的值不会留下舍入误差
+		sumXY := 0.0
+		sumY := 0.0
+		for i := inTimePeriod - 1; i >= 0; i-- {
+			tempValue1 := inReal[today-i]
+			sumY += tempValue1
+			sumXY += float64(i) * tempValue1
 		}
 		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
 		b := (sumY - m*sumX) / inTimePeriodF
@@ -68,22 +60,14 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 	sumX := inTimePeriodF * (inTimePeriodF - 1) * 0.5
 	sumXSqr := inTimePeriodF * (inTimePeriodF - 1) * (2*inTimePeriodF - 1) / 6
 	divisor := sumX*sumX - inTimePeriodF*sumXSqr
-	//initialize values of sumY and sumXY over first (inTimePeriod) input values
-	sumXY := 0.0
-	sumY := 0.0
-	i := inTimePeriod
-	for i != 0 {
-		i--
-		tempValue1 := inReal[today-i]
-		sumY += tempValue1
-		sumXY += float64(i) * tempValue1
-	}
 	for today < len(inReal) {
-		//sumX and sumXY are already available for first output value
-		if today > startIdx-1 {
-			tempValue2 := inReal[today-inTimePeriod]
-			sumXY += sumY - inTimePeriodF*tempValue2
-			sumY += inReal[today] - tempValue2
+		// 每个窗口重新求和，已移出窗口的值不会留下舍入误差
+		sumXY := 0.0
+		sumY := 0.0
+		for i := inTimePeriod - 1; i >= 0; i-- {
+			tempValue1 := inReal[today-i]
+			sumY += tempValue1
+			sumXY += float64(i) * tempValue1
 		}
 		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
 		outReal[outIdx] = math.Atan(m) * (180.0 / math.Pi)
@@ -110,22 +94,14 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 	sumX := inTimePeriodF * (inTimePeriodF - 1) * 0.5
 	sumXSqr := inTimePeriodF * (inTimePeriodF - 1) * (2*inTimePeriodF - 1) / 6
 	divisor := sumX*sumX - inTimePeriodF*sumXSqr
-	//initialize values of sumY and sumXY over first (inTimePeriod) input values
-	sumXY := 0.0
-	sumY := 0.0
-	i := inTimePeriod
-	for i != 0 {
-		i--
-		tempValue1 := inReal[today-i]
-		sumY += tempValue1
-		sumXY += float64(i) * tempValue1
-	}
 	for today < len(inReal) {
-		//sumX and sumXY are already available for first output value
-		if today > startIdx-1 {
-			tempValue2 := inReal[today-inTimePeriod]
-			sumXY += sumY - inTimePeriodF*tempValue2
-			sumY += inReal[today] - tempValue2
+		// 每个窗口重新求和，已移出窗口的值不会留下舍入误差
+		sumXY := 0.0
+		sumY := 0.0
+		for i := inTimePeriod - 1; i >= 0; i-- {
+			tempValue1 := inReal[today-i]
+			sumY += tempValue1
+			sumXY += float64(i) * tempValue1
 		}
 		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
 		outReal[outIdx] = (sumY - m*sumX) / inTimePeriodF
@@ -152,22 +128,14 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 	sumX := inTimePeriodF * (inTimePeriodF - 1) * 0.5
 	sumXSqr := inTimePeriodF * (inTimePeriodF - 1) * (2*inTimePeriodF - 1) / 6
 	divisor := sumX*sumX - inTimePeriodF*sumXSqr
-	//initialize values of sumY and sumXY over first (inTimePeriod) input values
-	sumXY := 0.0
-	sumY := 0.0
-	i := inTimePeriod
-	for i != 0 {
-		i--
-		tempValue1 := inReal[today-i]
-		sumY += tempValue1
-		sumXY += float64(i) * tempValue1
-	}
 	for today < len(inReal) {
-		//sumX and sumXY are already available for first output value
-		if today > startIdx-1 {
-			tempValue2 := inReal[today-inTimePeriod]
-			sumXY += sumY - inTimePeriodF*tempValue2
-			sumY += inReal[today] - tempValue2
+		// 每个窗口重新求和，已移出窗口的值不会留下舍入误差
+		sumXY := 0.0
+		sumY := 0.0
+		for i := inTimePeriod - 1; i >= 0; i-- {
+			tempValue1 := inReal[today-i]
+			sumY += tempValue1
+			sumXY += float64(i) * tempValue1
 		}
 		outReal[outIdx] = (inTimePeriodF*sumXY - sumX*sumY) / divisor
 		outIdx++
-- 
2.43.0


From d13b4fb5fbda5296a051e78a43283ddbafe2433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:52 +0000
Subject: [PATCH 56/58] fix: SmartMoneyConcepts finds the lowest candle of an
 order block for prices above 99999999 as well

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index e2d2abe..c0b05d6 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -451,7 +451,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, atr []float64, list SmartMoneyConceptsDataOrderBlockList, obType int) SmartMoneyConceptsDataOrderBlockList {
 
-	var min = 99999999.0
+	var min = math.MaxFloat64
 	var max = 0.0
 	var idx = index - 1
 	var ob_threshold = atr
-- 
2.43.0


From 8601dd9d6a698e921747b42417fbb03a121f17db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:18 +0000
Subject: [PATCH 57/58] fix: StdDev of low-priced series is not 0 (no fixed
 threshold on the variance)

---
 utils/ta/ta.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 3b90026..9b09414 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -1038,20 +1038,12 @@ func StdDev(inReal []float64, inTimePeriod int, inNbDev float64) []float64 {
 	if inNbDev != 1.0 {
 		for i := 0; i < len(inReal); i++ {
 			tempReal := outReal[i]
-			if !(tempReal < 0.00000000000001) {
-				outReal[i] = math.Sqrt(tempReal) * inNbDev
-			} else {
-				outReal[i] = 0.0
-			}
+			outReal[i] = math.Sqrt(tempReal) * inNbDev
 		}
 	} else {
 		for i := 0; i < len(inReal); i++ {
 			tempReal := outReal[i]
-			if !(tempReal < 0.00000000000001) {
-				outReal[i] = math.Sqrt(tempReal)
-			} else {
-				outReal[i] = 0.0
-			}
+			outReal[i] = math.Sqrt(tempReal)
 		}
 	}
 	return outReal
-- 
2.43.0


From 1f094a25cf4e9477d0ce55d50070949d05f41bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:18 +0000
Subject: [PATCH 58/58] fix: Rsi counts every move, however small its price
 unit

---
 trend/Rsi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index c19d0e5..b2c7b02 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -143,7 +143,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 	if today > 0 {
 
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 != 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
@@ -185,7 +185,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 		prevLoss /= float64(inTimePeriod)
 		prevGain /= float64(inTimePeriod)
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 != 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
-- 
2.43.0

