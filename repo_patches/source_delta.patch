From 66f883f39b55d758298434ba078fb4351533e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 01/51] fix: SortCandlesByTimestamp sorted in the opposite
 direction

---
 utils/klines/kline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d495109..ec5a278 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -192,10 +192,10 @@ func (e *Item) RemoveDuplicates() {
 // SortCandlesByTimestamp sorts candles by timestamp
 func (e *Item) SortCandlesByTimestamp(desc bool) {
 	if desc {
-		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
+		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
 		return
 	}
-	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
+	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
 }
 
 // addPadding 插入填充时间对齐，当交易所不提供所有数据时
-- 
2.43.0


From 8711c7e9814fb6b898efdff5c394e16ab79ab0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 02/51] fix: ConvertToNewInterval let an incomplete trailing
 group leak into the last candle

---
 utils/klines/kline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index ec5a278..870ae5f 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -98,6 +98,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 
 	target = 0
 	for x := range e.Candles {
+		// 超出当前新蜡烛时间窗口的数据（例如末尾不完整的部分）不参与聚合
+		if e.Candles[x].TimeUnix >= candles[target].TimeUnix+int64(newInterval.Duration().Seconds()) {
+			continue
+		}
 
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix && candles[target].Open == 0 {
 			candles[target].Open = e.Candles[x].Open
-- 
2.43.0


From 2ddc32f497c2bcca824c25797d09a30d4e6c1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 03/51] fix: ConvertToNewInterval panicked on empty series and
 on unset dates

---
 utils/klines/kline.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 870ae5f..6563e46 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -45,6 +45,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	if len(e.Candles) == 0 {
+		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
+	}
+
 	start := time.Unix(e.Candles[0].TimeUnix, 0)
 	end := time.Unix(e.Candles[len(e.Candles)-1].TimeUnix, 0).Add(e.Interval.Duration())
 	window := end.Sub(start)
@@ -78,7 +82,7 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	// 有的时候不取整，重新计算开始、结束时间
 	newIntervalRangeHolder, err := CalculateCandleDateRanges(start, end, newInterval, 100000)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 
 	var target int
-- 
2.43.0


From 80fe669faad0678df30ee5f5be72d860d3932330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 04/51] fix: candle conversions dropped Symbol and Code

---
 utils/klines/kline.go              | 4 ++++
 utils/klines/technical_analysis.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 6563e46..08a1402 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -145,6 +145,8 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	return &Item{
 		Exchange: e.Exchange,
 		Interval: newInterval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Candles:  candles,
 	}, nil
 }
@@ -162,6 +164,8 @@ func (e *Item) RemoveOutsideRangeCopy(start, end time.Time) *Item {
 	klineItem := &Item{
 		Exchange: e.Exchange,
 		Interval: e.Interval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 		Candles:  candles,
 	}
 	klineItem.RemoveOutsideRange(start, end)
diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 8874c74..ea9534f 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -44,6 +44,8 @@ func (e *Item) ToHeikinAshi() *Item {
 	var result = &Item{
 		Exchange: e.Exchange,
 		Interval: e.Interval,
+		Symbol:   e.Symbol,
+		Code:     e.Code,
 	}
 
 	result.Candles = make([]*Candle, len(e.Candles))
-- 
2.43.0


From ea5e52e2edb9696e25224dea5578768923eb0904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 05/51] fix: Heikin-Ashi low took the maximum and open ignored
 the previous HA candle

---
 utils/klines/technical_analysis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index ea9534f..c3b721d 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -52,8 +52,8 @@ func (e *Item) ToHeikinAshi() *Item {
 	for index, candle := range e.Candles {
 
 		var open = (candle.Open + candle.Close) / 2
-		if index > 1 {
-			var prev = e.Candles[index-1]
+		if index > 0 {
+			var prev = result.Candles[index-1]
 			open = (prev.Open + prev.Close) / 2
 		}
 
@@ -61,7 +61,7 @@ func (e *Item) ToHeikinAshi() *Item {
 			Open:     open,
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
-			Low:      math.Max(candle.Low, math.Min(open, candle.Close)),
+			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0


From 8646d79473cf4c1bfcb4d3831e0ab5512e681e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 06/51] fix: bars without enough history reported Buy instead
 of Hold

---
 channel/Boll.go                         | 1 +
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 oscillator/AbsolutePriceOscillator.go   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/EMAVegas.go                       | 2 ++
 trend/Kdj.go                            | 1 +
 trend/Macd.go                           | 1 +
 trend/PivotPointSuperTrend.go           | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/SuperTrend.go                     | 1 +
 trend/UTBot.go                          | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 23 files changed, 24 insertions(+)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..fc2ab00 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -130,6 +130,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..9b7c55a 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -84,6 +84,7 @@ func (e *DonchianChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..f0312ba 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -89,6 +89,7 @@ func (e *KeltnerChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AbsolutePriceOscillator.go b/oscillator/AbsolutePriceOscillator.go
index 78b2196..0820641 100644
--- a/oscillator/AbsolutePriceOscillator.go
+++ b/oscillator/AbsolutePriceOscillator.go
@@ -60,6 +60,7 @@ func (e *AbsolutePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..24d7489 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -63,6 +63,7 @@ func (e *AwesomeOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..35c36fa 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -78,6 +78,7 @@ func (e *ChaikinOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..9bb8273 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -119,6 +119,7 @@ func (e *IchimokuCloud) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < e.ConversionPeriod {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..472135d 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -90,6 +90,7 @@ func (e *PercentagePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..83dd3f0 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -87,6 +87,7 @@ func (e *ProjectionOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..b1684f6 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -94,6 +94,7 @@ func (e *StochasticOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..ceab412 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -84,6 +84,7 @@ func (e *WilliamsR) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..e71d628 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -85,6 +85,7 @@ func (e *AiCoinCCI) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..e91e053 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -156,6 +156,7 @@ func (e *Cci) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..98bfaf7 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -108,6 +108,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 
 	for i := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var item = e.data[i]
@@ -115,6 +116,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 		var t1, d1 bool
 
 		if (i - 10 - 1) < 0 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..7e8c536 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -75,6 +75,7 @@ func (e *Kdj) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Macd.go b/trend/Macd.go
index 66ca477..39875a5 100644
--- a/trend/Macd.go
+++ b/trend/Macd.go
@@ -96,6 +96,7 @@ func (e *Macd) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..a5d6fea 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -159,6 +159,7 @@ func (e *PivotPointSuperTrend) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..f3a2ed7 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -61,6 +61,7 @@ func (e *Rsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..ba78ad8 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -76,6 +76,7 @@ func (e *StochRsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..46d0009 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -189,6 +189,7 @@ func (e *StochasticHeat) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..1086142 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -177,6 +177,7 @@ func (e *SuperTrend) AnalysisSide() utils.SideData {
 	sides := make([]utils.Side, len(e.data))
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..07d2c39 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -110,6 +110,7 @@ func (e *UTBot) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var close = v.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..0216a38 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -98,6 +98,7 @@ func (e *MoneyFlowIndex) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
-- 
2.43.0


From 8fc4ee946650f80aed571f49df5c379ee9b87df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 07/51] fix: Boll sell signal compared the previous close with
 itself

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index fc2ab00..7b6a4d1 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -140,7 +140,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 		if price > v.Upper && prevPrice < prevItem.Upper {
 			sides[i] = utils.Buy
-		} else if price < v.Lower && prevPrice > prevPrice {
+		} else if price < v.Lower && prevPrice > prevItem.Lower {
 			sides[i] = utils.Sell
 		} else {
 			sides[i] = utils.Hold
-- 
2.43.0


From 71da662eb054febab2571208fb8dcd36222ca7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 08/51] fix: Boll ignored the band multiplier PeriodK

---
 channel/Boll.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 7b6a4d1..a006bd2 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -100,8 +100,9 @@ func (e *Boll) Calculation() *Boll {
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
-	var upper = ta.Add(middle, md)
-	var lower = ta.Subtract(middle, md)
+	var band = ta.MultiplyBy(md, float64(e.PeriodK))
+	var upper = ta.Add(middle, band)
+	var lower = ta.Subtract(middle, band)
 
 	for i := range middle {
 		e.data[i] = BollData{
-- 
2.43.0


From 19d867e4b1bf173fbfd0bfdb64d891604cee127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 09/51] fix: Boll standard deviation was NaN when rounding made
 the variance negative

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index a006bd2..7ea3eef 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -83,7 +83,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 		if i < period-1 {
 			result[i] = 0.0
 		} else {
-			result[i] = math.Sqrt(sum2/float64(period) - sma[i]*sma[i])
+			result[i] = math.Sqrt(math.Max(0, sum2/float64(period)-sma[i]*sma[i]))
 			w := e.kline.Candles[i-(period-1)].Close
 			sum2 -= w * w
 		}
-- 
2.43.0


From 0dd8fe6e998e44e5bf8bda937fb5b3f88997588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 10/51] fix: ta.Rma dropped the first value from its warm-up
 average

---
 utils/ta/ta.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..29c1013 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -293,9 +293,6 @@ func Rma(period int, values []float64) []float64 {
 	sum := float64(0)
 
 	for i, value := range values {
-		if i < 1 {
-			continue
-		}
 		count := i + 1
 		if i < period {
 			sum += value
-- 
2.43.0


From 438513bf5cc3be81b2cfc72b7216daa83ca9d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 11/51] fix: Rma.Calculation returned twice as many records as
 candles

---
 trend/Rma.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..dd99b34 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -40,7 +40,7 @@ func (e *Rma) Calculation() *Rma {
 
 	var rma = ta.Rma(e.Period, e.kline.GetOHLC().Close)
 
-	e.data = make([]RmaData, len(rma))
+	e.data = make([]RmaData, 0, len(rma))
 	for i, value := range rma {
 
 		e.data = append(e.data, RmaData{
-- 
2.43.0


From 83c850aeed856fa312b671941ad1cc6f844dacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 12/51] fix: Atr true range lacked absolute values and used a
 zero previous close

---
 trend/Atr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 56d4b84..dd0dcbc 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -52,11 +52,11 @@ func (e *Atr) Calculation() *Atr {
 		// klineItem := e.kline[i]
 		var AtrPointStruct AtrData
 		// TR= | 最高价 - 最低价 | 和 | 最高价 - 昨日收盘价 | 和 | 昨日收盘价 - 最低价 | 的最大值
-		var prevClose float64
+		tr[i] = highs[i] - lows[i]
 		if i != 0 {
-			prevClose = closes[i-1]
+			prevClose := closes[i-1]
+			tr[i] = math.Max(tr[i], math.Max(math.Abs(highs[i]-prevClose), math.Abs(prevClose-lows[i])))
 		}
-		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, lows[i]-prevClose))
 		AtrPointStruct.Time = time.Unix(e.kline.Candles[i].TimeUnix, 0)
 	}
 	var atr = ta.Rma(e.Period, tr)
-- 
2.43.0


From 9662e2c733aa19efca640e2d96620bfa406ad1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 13/51] fix: rolling helpers panicked on series shorter than
 their period

---
 trend/Rsi.go   |  2 +-
 utils/ta/ta.go | 28 ++++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index f3a2ed7..9688132 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -105,7 +105,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 29c1013..da48d92 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -340,6 +356,10 @@ func Wma(period int, values []float64) []float64 {
 
 	result := make([]float64, len(values))
 
+	if len(values) < period {
+		return result
+	}
+
 	lookbackTotal := period - 1
 	startIdx := lookbackTotal
 
@@ -440,7 +460,7 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 
 	inTimePeriodF := float64(inTimePeriod)
 
-	if inTimePeriod < 1 {
+	if inTimePeriod < 1 || len(inClose) <= inTimePeriod {
 		return outReal
 	}
 
@@ -472,7 +492,7 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 
 	outReal := make([]float64, len(inClose))
 
-	if inTimePeriod < 1 {
+	if inTimePeriod < 1 || len(inClose) <= inTimePeriod {
 		return outReal
 	}
 
@@ -998,6 +1018,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
-- 
2.43.0


From 3069a208f1c2dab6c6492900492514928597c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 14/51] fix: SD of an empty slice was NaN

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index da48d92..d834a47 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -216,6 +216,10 @@ func Stochastic(closing, highs, lows []float64, period int) (k, d []float64) {
 
 // StdDev - 标准差
 func SD(values []float64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
 	// 首先计算收盘价的平均值
 	sum := 0.0
 	for _, k := range values {
-- 
2.43.0


From 22df5dd58f49ad0d4d09a6676b45ff42419d790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 15/51] fix: PivotMax ignored windows of negative values

---
 utils/ta/ta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index d834a47..1e25abc 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -859,7 +859,8 @@ func PivotLow(values []float64, left, right int) []float64 {
 
 // PivotMax 以 index 为起始点，向 左、右 开始查找最大值
 func PivotMax(values []float64, index, left, right int) (val float64, position int) {
-	var leftVal, rightVal float64
+	var leftVal = values[index]
+	var rightVal = values[index]
 
 	// val = values[index]
 	position = index
-- 
2.43.0


From 741b38efdada4f617e4f68f9844500d6024cb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 16/51] fix: ADX produced NaN on flat markets and then stayed
 at zero

---
 trend/AverageDirectionalIndex.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..21b8171 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -122,9 +122,14 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	dx := make([]float64, len(close))
 
 	for i := e.Period - 1; i < len(close); i++ {
+		if smoothedTR[i] == 0 {
+			continue
+		}
 		plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
 		minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
-		dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / (plusDI[i] + minusDI[i]))
+		if sum := plusDI[i] + minusDI[i]; sum != 0 {
+			dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / sum)
+		}
 	}
 
 	// 对 DX 进行平滑处理
-- 
2.43.0


From c564d73f412d39544a3f14a82f561735660a96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 17/51] fix: Ichimoku conversion line used a hard-coded high
 window

---
 oscillator/IchimokuCloud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 9bb8273..20c70f6 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -69,7 +69,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 	var closing = ohlc.Close
 
 	// 转换线
-	conversionLine := ta.DivideBy(ta.Add(ta.Max(9, high), ta.Min(conversionPeriod, low)), float64(2))
+	conversionLine := ta.DivideBy(ta.Add(ta.Max(conversionPeriod, high), ta.Min(conversionPeriod, low)), float64(2))
 	// 基线
 	baseLine := ta.DivideBy(ta.Add(ta.Max(26, high), ta.Min(26, low)), float64(2))
 	// 先行带A（Senkou Span A）：通过转换线和基线的移动平均值预计未来26日内趋势
-- 
2.43.0


From 537d6790a53cef364b385de699e5b6bf90edefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 18/51] fix: AwesomeOscillator averages the median price with
 SMA as documented

---
 oscillator/AwesomeOscillator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 24d7489..1e26278 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -40,8 +40,8 @@ func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 	var low = ohlc.Low
 
 	medianPrice := ta.DivideBy(ta.Add(low, high), float64(2))
-	sma5 := ta.Ema(5, medianPrice)
-	sma34 := ta.Ema(34, medianPrice)
+	sma5 := ta.Sma(5, medianPrice)
+	sma34 := ta.Sma(34, medianPrice)
 	ao := ta.Subtract(sma5, sma34)
 
 	for i := 0; i < len(ao); i++ {
-- 
2.43.0


From bb96c851be7d00c89dfed135e9c838fa56259857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 19/51] fix: UlcerIndex averages the squared drawdown with SMA
 as documented

---
 channel/UlcerIndex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..4161f71 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -53,7 +53,7 @@ func (e *UlcerIndex) Calculation() *UlcerIndex {
 
 	highClosing := ta.Max(period, closing)
 	percentageDrawdown := ta.MultiplyBy(ta.Divide(ta.Subtract(closing, highClosing), highClosing), 100)
-	squaredAverage := ta.Ema(period, ta.Multiply(percentageDrawdown, percentageDrawdown))
+	squaredAverage := ta.KeepPositives(ta.Sma(period, ta.Multiply(percentageDrawdown, percentageDrawdown)))
 
 	ui := ta.Sqrt(squaredAverage)
 
-- 
2.43.0


From 73690a26b2cdcb578f5c2203657b9015c65b7ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 20/51] fix: WilliamsR was NaN when the window had no range

---
 oscillator/WilliamsR.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index ceab412..446e2ca 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -60,6 +60,9 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 	result := make([]float64, len(closing))
 
 	for i := 0; i < len(closing); i++ {
+		if highestHigh[i] == lowestLow[i] {
+			continue
+		}
 		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
 	}
 
-- 
2.43.0


From b96ac3f58ef2934f4d65ade52a8d09b19fbb6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 21/51] fix: least-squares slope of a single point was NaN and
 blanked ProjectionOscillator

---
 utils/regression.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/regression.go b/utils/regression.go
index 6154ef0..8fd1b8f 100644
--- a/utils/regression.go
+++ b/utils/regression.go
@@ -20,7 +20,10 @@ func LeastSquare(x, y []float64) (float64, float64) {
 	}
 
 	n := float64(len(x))
-	m := ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+	m := 0.0
+	if d := (n * sumX2) - (sumX * sumX); d != 0 {
+		m = ((n * sumXY) - (sumX * sumY)) / d
+	}
 	b := (sumY - (m * sumX)) / n
 
 	return m, b
@@ -57,7 +60,9 @@ func MovingLeastSquare(period int, x, y []float64) ([]float64, []float64) {
 			n = float64(period)
 		}
 
-		m[i] = ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+		if d := (n * sumX2) - (sumX * sumX); d != 0 {
+			m[i] = ((n * sumXY) - (sumX * sumY)) / d
+		}
 		b[i] = (sumY - (m[i] * sumX)) / n
 	}
 
-- 
2.43.0


From 1ec8dafb2a8557e1873b2081495bf5aea78e7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 22/51] fix: calling Calculation again duplicated every record

---
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 channel/UlcerIndex.go                   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/Ma.go                             | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/Vortex.go                         | 1 +
 volume/AccumulationDistribution.go      | 1 +
 volume/ChaikinMoneyFlow.go              | 1 +
 volume/EaseOfMovement.go                | 1 +
 volume/ForceIndex.go                    | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 volume/NegativeVolumeIndex.go           | 1 +
 volume/Obv.go                           | 1 +
 volume/VolumePriceTrend.go              | 1 +
 volume/Vwma.go                          | 1 +
 26 files changed, 26 insertions(+)

diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 9b7c55a..277e77e 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -49,6 +49,7 @@ func NewDefaultDonchianChannel(klineItem *klines.Item) *DonchianChannel {
 
 // Calculation Func
 func (e *DonchianChannel) Calculation() *DonchianChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f0312ba..76b5565 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -50,6 +50,7 @@ func NewDefaultKeltnerChannel(klineItem *klines.Item) *KeltnerChannel {
 
 // Calculation Func
 func (e *KeltnerChannel) Calculation() *KeltnerChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 4161f71..9688d9c 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -46,6 +46,7 @@ func NewDefaultUlcerIndex(klineItem *klines.Item) *UlcerIndex {
 
 // Calculation Func
 func (e *UlcerIndex) Calculation() *UlcerIndex {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 1e26278..f5681e2 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -34,6 +34,7 @@ func NewAwesomeOscillator(klineItem *klines.Item) *AwesomeOscillator {
 
 // Calculation Func
 func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index 35c36fa..ed8dda2 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -49,6 +49,7 @@ func NewDefaultChaikinOscillator(klineItem *klines.Item) *ChaikinOscillator {
 
 // Calculation Func
 func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
+	e.data = nil
 
 	ad := volume.NewAccumulationDistribution(e.kline).GetValues()
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 20c70f6..fb5dd68 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -59,6 +59,7 @@ func NewDefaultIchimokuCloud(klineItem *klines.Item) *IchimokuCloud {
 
 // Calculation Func
 func (e *IchimokuCloud) Calculation() *IchimokuCloud {
+	e.data = nil
 
 	conversionPeriod := e.ConversionPeriod
 	leadingSpanBPeriod := e.LeadingSpanBPeriod
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 472135d..08d6180 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -53,6 +53,7 @@ func NewDefaultPercentagePriceOscillator(klineItem *klines.Item) *PercentagePric
 
 // Calculation Func
 func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
+	e.data = nil
 
 	var fastPeriod = e.FastPeriod
 	var slowPeriod = e.SlowPeriod
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index 83dd3f0..632c2f9 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -47,6 +47,7 @@ func NewDefaultProjectionOscillator(klineItem *klines.Item) *ProjectionOscillato
 
 // Calculation Func
 func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
+	e.data = nil
 
 	period := e.Period
 	smooth := e.Smooth
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index b1684f6..9fd07a5 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -48,6 +48,7 @@ func NewDefaultStochasticOscillator(klineItem *klines.Item) *StochasticOscillato
 
 // Calculation Func
 func (e *StochasticOscillator) Calculation() *StochasticOscillator {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 446e2ca..ee50626 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -46,6 +46,7 @@ func NewDefaultWilliamsR(klineItem *klines.Item) *WilliamsR {
 
 // Calculation Func
 func (e *WilliamsR) Calculation() *WilliamsR {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e71d628..8c57991 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -60,6 +60,7 @@ func ComputeCCI(close, matp, md []float64) []float64 {
 
 // Calculation Func
 func (e *AiCoinCCI) Calculation() *AiCoinCCI {
+	e.data = nil
 
 	close := e.kline.GetOHLC().Close
 
diff --git a/trend/Cci.go b/trend/Cci.go
index e91e053..870dcd0 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -68,6 +68,7 @@ func NewDefaultCci(klineItem *klines.Item) *Cci {
 
 // Calculation Func
 func (e *Cci) Calculation() *Cci {
+	e.data = nil
 
 	hlc3 := e.kline.HLC3()
 
diff --git a/trend/Ma.go b/trend/Ma.go
index 48e6802..e4167d3 100644
--- a/trend/Ma.go
+++ b/trend/Ma.go
@@ -47,6 +47,7 @@ func (e *Ma) GetData() []MaData {
 
 // Calculation Func
 func (e *Ma) Calculation() *Ma {
+	e.data = nil
 
 	closes := e.kline.GetOHLC().Close
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 9688132..5a27cc9 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -38,6 +38,7 @@ func NewDefaultRsi(klineItem *klines.Item) *Rsi {
 
 // Calculation Func
 func (e *Rsi) Calculation() *Rsi {
+	e.data = nil
 
 	rsiArray := e.rsi(e.kline.GetOHLC().Close, e.Period)
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index ba78ad8..1d48361 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -47,6 +47,7 @@ func NewDefaultStochRsi(klineItem *klines.Item) *StochRsi {
 
 // Calculation Func
 func (e *StochRsi) Calculation() *StochRsi {
+	e.data = nil
 
 	rsi := NewRsi(e.kline, e.RsiLength).GetValue()
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 46d0009..ec961af 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -57,6 +57,7 @@ func NewDefaultStochasticHeat(klineItem *klines.Item) *StochasticHeat {
 
 // Calculation Func
 func (e *StochasticHeat) Calculation() *StochasticHeat {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var highs = ohlc.High
diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..11d71ba 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -39,6 +39,7 @@ func NewDefaultVortex(klineItem *klines.Item) *Vortex {
 
 // Calculation Func
 func (e *Vortex) Calculation() *Vortex {
+	e.data = nil
 
 	period := e.Period
 
diff --git a/volume/AccumulationDistribution.go b/volume/AccumulationDistribution.go
index 23bcba0..f380d26 100644
--- a/volume/AccumulationDistribution.go
+++ b/volume/AccumulationDistribution.go
@@ -45,6 +45,7 @@ func NewDefaultAccumulationDistribution(klineItem *klines.Item) *AccumulationDis
 
 // Calculation Func
 func (e *AccumulationDistribution) Calculation() *AccumulationDistribution {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/ChaikinMoneyFlow.go b/volume/ChaikinMoneyFlow.go
index 6f33759..cb5313e 100644
--- a/volume/ChaikinMoneyFlow.go
+++ b/volume/ChaikinMoneyFlow.go
@@ -50,6 +50,7 @@ func NewDefaultChaikinMoneyFlow(klineItem *klines.Item) *ChaikinMoneyFlow {
 
 // Calculation Func
 func (e *ChaikinMoneyFlow) Calculation() *ChaikinMoneyFlow {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/EaseOfMovement.go b/volume/EaseOfMovement.go
index 513c2f9..0ce63de 100644
--- a/volume/EaseOfMovement.go
+++ b/volume/EaseOfMovement.go
@@ -46,6 +46,7 @@ func NewDefaultEaseOfMovement(klineItem *klines.Item) *EaseOfMovement {
 
 // Calculation Func
 func (e *EaseOfMovement) Calculation() *EaseOfMovement {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/ForceIndex.go b/volume/ForceIndex.go
index d6f095b..2674839 100644
--- a/volume/ForceIndex.go
+++ b/volume/ForceIndex.go
@@ -42,6 +42,7 @@ func NewDefaultForceIndex(klineItem *klines.Item) *ForceIndex {
 
 // Calculation Func
 func (e *ForceIndex) Calculation() *ForceIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index 0216a38..c8f6a31 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -49,6 +49,7 @@ func NewDefaultMoneyFlowIndex(klineItem *klines.Item) *MoneyFlowIndex {
 
 // Calculation Func
 func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/NegativeVolumeIndex.go b/volume/NegativeVolumeIndex.go
index c8a659e..3fb8a3f 100644
--- a/volume/NegativeVolumeIndex.go
+++ b/volume/NegativeVolumeIndex.go
@@ -44,6 +44,7 @@ func NewDefaultNegativeVolumeIndex(klineItem *klines.Item) *NegativeVolumeIndex
 
 // Calculation Func
 func (e *NegativeVolumeIndex) Calculation() *NegativeVolumeIndex {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/Obv.go b/volume/Obv.go
index 644a48c..44c3e4f 100644
--- a/volume/Obv.go
+++ b/volume/Obv.go
@@ -33,6 +33,7 @@ func NewObv(klineItem *klines.Item) *Obv {
 
 // Calculation Func
 func (e *Obv) Calculation() *Obv {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closes = ohlc.Close
diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..a487ab1 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -42,6 +42,7 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 
 // Calculation Func
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/Vwma.go b/volume/Vwma.go
index a0efa2a..cde0592 100644
--- a/volume/Vwma.go
+++ b/volume/Vwma.go
@@ -45,6 +45,7 @@ func NewDefaultVwma(klineItem *klines.Item) *Vwma {
 
 // Calculation Func
 func (e *Vwma) Calculation() *Vwma {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
-- 
2.43.0


From 1ee73e8230a9aa1e062aba017c98231365066cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 23/51] fix: ta.Sum left rounding residue that CMF, MFI and
 VWMA divided by after a zero-volume run

---
 utils/ta/ta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 1e25abc..d09f7b0 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -951,7 +951,11 @@ func Sum(period int, values []float64) []float64 {
 		sum += values[i]
 
 		if i >= period {
-			sum -= values[i-period]
+			// 重新累加窗口, 避免滚动加减残留的误差被后续的除法放大
+			sum = 0
+			for j := i - period + 1; j <= i; j++ {
+				sum += values[j]
+			}
 		}
 
 		result[i] = sum
-- 
2.43.0


From 5cfdc6cc1ba7259264cffc3d310d01f14a975f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 24/51] fix: MoneyFlowIndex was 0 instead of 100 when there was
 no negative money flow

---
 volume/MoneyFlowIndex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index c8f6a31..55dd3bc 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -70,11 +70,11 @@ func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 	positiveMoneyFlow := ta.KeepPositives(moneyFlow)
 	negativeMoneyFlow := ta.KeepNegatives(moneyFlow)
 
-	moneyRatio := ta.Divide(
-		ta.Sum(period, positiveMoneyFlow),
-		ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1)))
+	positiveSum := ta.Sum(period, positiveMoneyFlow)
+	negativeSum := ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1))
 
-	moneyFlowIndex := ta.AddBy(ta.MultiplyBy(ta.Pow(ta.AddBy(moneyRatio, 1), -1), -100), 100)
+	// 100 - 100/(1+positive/negative) = 100*positive/(positive+negative)
+	moneyFlowIndex := ta.MultiplyBy(ta.Divide(positiveSum, ta.Add(positiveSum, negativeSum)), 100)
 
 	for i := 0; i < len(moneyFlowIndex); i++ {
 		e.data = append(e.data, MoneyFlowIndexData{
-- 
2.43.0


From 875783465a80b12a7346f1975e3e88857a777f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 25/51] fix: VolumePriceTrend panicked on an empty series

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index a487ab1..e2a3cfd 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -49,6 +49,10 @@ func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
 
+	if len(closing) == 0 {
+		return e
+	}
+
 	previousClosing := ta.ShiftRightAndFillBy(period, closing[0], closing)
 	vpt := ta.Multiply(volume, ta.Divide(ta.Subtract(closing, previousClosing), previousClosing))
 	vals := ta.Sum(len(vpt), vpt)
-- 
2.43.0


From f5f07a5484200b341c5799a2c15836f5df0e95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 26/51] fix: CCI was NaN on a flat window

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index d09f7b0..6a565a0 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -424,6 +424,9 @@ func CCI(hlc3 []float64, period, smaPeriod int) []float64 {
 
 	// 计算CCI值
 	for i := period - 1; i < len(hlc3); i++ {
+		if md[i] == 0 {
+			continue
+		}
 		typicalPrice := typicalPrices[i]
 		cci := (typicalPrice - ma[i]) / (0.015 * md[i])
 		ccis[i] = cci
-- 
2.43.0


From 78e62a5c366d2a9ac2f44b5403c23e5669c29ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 27/51] fix: Vortex was NaN on a flat window

---
 trend/Vortex.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 11d71ba..49f1b75 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -55,26 +55,27 @@ func (e *Vortex) Calculation() *Vortex {
 	minusVm := make([]float64, period)
 	tr := make([]float64, period)
 
-	var plusVmSum, minusVmSum, trSum float64
-
 	for i := 1; i < len(high); i++ {
 		j := i % period
 
-		plusVmSum -= plusVm[j]
 		plusVm[j] = math.Abs(high[i] - low[i-1])
-		plusVmSum += plusVm[j]
-
-		minusVmSum -= minusVm[j]
 		minusVm[j] = math.Abs(low[i] - high[i-1])
-		minusVmSum += minusVm[j]
 
 		highLow := high[i] - low[i]
 		highPrevClosing := math.Abs(high[i] - closing[i-1])
 		lowPrevClosing := math.Abs(low[i] - closing[i-1])
 
-		trSum -= tr[j]
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
-		trSum += tr[j]
+
+		var plusVmSum, minusVmSum, trSum float64
+		for n := 0; n < period; n++ {
+			plusVmSum += plusVm[n]
+			minusVmSum += minusVm[n]
+			trSum += tr[n]
+		}
+		if trSum == 0 {
+			continue
+		}
 
 		plusVi[i] = plusVmSum / trSum
 		minusVi[i] = minusVmSum / trSum
-- 
2.43.0


From 23020e4d0baf94fb3c87cb759ee28da64296731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 28/51] fix: Kdj with period 1 panicked

---
 trend/Kdj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 7e8c536..2ea6115 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -165,8 +165,12 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
 			}
 
-			k[i] = (2.0/3)*k[i-1] + 1.0/3*rsv[i]
-			d[i] = (2.0/3)*d[i-1] + 1.0/3*k[i]
+			prevK, prevD := 50.0, 50.0
+			if i > 0 {
+				prevK, prevD = k[i-1], d[i-1]
+			}
+			k[i] = (2.0/3)*prevK + 1.0/3*rsv[i]
+			d[i] = (2.0/3)*prevD + 1.0/3*k[i]
 			// remove first value in array.
 			periodLowArr = periodLowArr[1:]
 			periodHighArr = periodHighArr[1:]
-- 
2.43.0


From 320024fd7bac6bf7fbf756eda9e0fb170e03291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 29/51] fix: Kdj treated a small absolute price range as flat
 and reported RSV 100

---
 trend/Kdj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 2ea6115..ab63d49 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -159,7 +159,7 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 			lowest := e.arrayLowest(periodLowArr)
 			highest := e.arrayHighest(periodHighArr)
 
-			if highest-lowest < 0.000001 {
+			if highest-lowest <= 0 {
 				rsv[i] = 100
 			} else {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
-- 
2.43.0


From b44d0983ad398bb00d19b56ffbfa5cfb971f28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 30/51] fix: Kdj GetListK/D/J were empty unless Calculation had
 been called first

---
 trend/Kdj.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index ab63d49..3fec51d 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -105,6 +105,9 @@ func (e *Kdj) GetData() []KdjData {
 
 // GetListK Func
 func (e *Kdj) GetListK() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.K)
@@ -114,6 +117,9 @@ func (e *Kdj) GetListK() []float64 {
 
 // GetListD Func
 func (e *Kdj) GetListD() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.D)
@@ -123,6 +129,9 @@ func (e *Kdj) GetListD() []float64 {
 
 // GetListJ Func
 func (e *Kdj) GetListJ() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.J)
-- 
2.43.0


From b1ddba181940ba0e097a03d2beccdf86f8534e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 31/51] fix: SmartMoneyConcepts left a zero Time on the records
 before the swing window

---
 trend/SmartMoneyConcepts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b22def..a2dfd29 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,9 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 
 	var trend = 0
 	var itrend = 0
@@ -175,7 +178,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var close = closes[i]
 		var high = highs[i]
 		var low = lows[i]
-		var timeUnix = times[i]
 
 		if trail_up == 0.0 {
 			trail_up = high
@@ -430,8 +432,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 				Value: trail_dn,
 			}
 		}
-
-		e.data[i].Time = time.Unix(timeUnix, 0)
 	}
 
 	return e
-- 
2.43.0


From 19992d6600183870767b16d82b8b189cc96f0e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 32/51] fix: SmartMoneyConcepts carried swing and order-block
 state over to the next Calculation

---
 trend/SmartMoneyConcepts.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index a2dfd29..bd58955 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -133,6 +133,13 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 	var atr = ta.Atr(highs, lows, closes, 200)
 
+	// 重置上一次计算遗留的状态
+	e.Clear()
+	e.os1Prev, e.os2Prev = 0, 0
+	e.idxPrevBullish, e.idxPrevBearish = 0, 0
+	e.StrongHigh, e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+	e.StrongLow, e.WeakLow = SmartMoneyConceptsDataStrongWeak{}, SmartMoneyConceptsDataStrongWeak{}
+
 	e.data = make([]SmartMoneyConceptsData, len(closes))
 	for i := range e.data {
 		e.data[i].Time = time.Unix(times[i], 0)
-- 
2.43.0


From 7fa45f8d949b5c8fb45a6ea520ff6867a9dd40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 33/51] fix: SmartMoneyConcepts swing-low CHoCH used the
 internal trend instead of the swing trend

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index bd58955..b2240ff 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -322,7 +322,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		if ta.CrossUnder(closes[:i+1], btm_y) && btm_cross {
 
 			var choch = false
-			if itrend > 0 {
+			if trend > 0 {
 				choch = true
 			}
 
-- 
2.43.0


From 75db71add03d009eccb39f8c00f96d31cb9063a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 34/51] fix: first record of UTBot, PivotPointSuperTrend and
 BreakoutProbability had no Time

---
 trend/BreakoutProbability.go  | 3 +++
 trend/PivotPointSuperTrend.go | 4 ++++
 trend/UTBot.go                | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 0446063..a9b9617 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -109,6 +109,9 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 	}()
 
 	e.data = make([]BreakoutProbabilityData, len(closes))
+	if len(closes) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
 	for i := 1; i < len(closes); i++ {
 
 		var dataItem = BreakoutProbabilityData{
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a5d6fea..0cfec00 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -90,6 +90,10 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 
 	e.data = make([]PivotPointSuperTrendData, len(closes))
 
+	if len(closes) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
+
 	for i := 1; i < len(closes); i++ {
 
 		var c = closes[i]
diff --git a/trend/UTBot.go b/trend/UTBot.go
index 07d2c39..25ed93d 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -73,6 +73,10 @@ func (e *UTBot) Calculation() *UTBot {
 	e.data = make([]UTBotData, len(closes))
 	for i, close := range closes {
 		if i == 0 {
+			e.data[i] = UTBotData{
+				Time:  time.Unix(times[i], 0),
+				Close: close,
+			}
 			continue
 		}
 		// var prevClose = closeing[i-1]
-- 
2.43.0


From a8daa01ae26ddaa5c0b404811643d9a545545f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 35/51] fix: BreakoutProbability counted lows that stayed above
 the level as downside breaks

---
 trend/BreakoutProbability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index a9b9617..bd79418 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -228,7 +228,7 @@ func (e *BreakoutProbability) score(x float64, rowIndex int, green, red bool, to
 	rtotal := total[5][1]
 
 	var hh = commonutils.If(high > highPrev+x, true, false).(bool)
-	var ll = commonutils.If(low > lowPrev-x, true, false).(bool)
+	var ll = commonutils.If(low < lowPrev-x, true, false).(bool)
 
 	if green && hh {
 		total[rowIndex][0] = ghh + 1
-- 
2.43.0


From 10f9d89e91bc3f5c3e88fdb5f79d05ae4e09c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 36/51] fix: ConvertToNewInterval dropped Amount and Count

---
 utils/klines/kline.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 08a1402..b385062 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -121,6 +121,8 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix || (e.Candles[x].TimeUnix > candles[target].TimeUnix && e.Candles[x].TimeUnix < (candles[target].TimeUnix+int64(newInterval.Duration().Seconds()))) {
 			candles[target].Volume += e.Candles[x].Volume
+			candles[target].Amount += e.Candles[x].Amount
+			candles[target].Count += e.Candles[x].Count
 		}
 		if (e.Candles[x].TimeUnix + int64(e.Interval.Duration().Seconds())) == (candles[target].TimeUnix + int64(newInterval.Duration().Seconds())) {
 			candles[target].Close = e.Candles[x].Close
-- 
2.43.0


From 1d10a66e8e5ceedf953a01316bb3d6a312df684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 37/51] fix: CheckEquals hung without inputs and ignored the
 other pairs once one had ended

---
 helpertools/CheckEquals.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/helpertools/CheckEquals.go b/helpertools/CheckEquals.go
index f4dcf2a..0b0e7ab 100644
--- a/helpertools/CheckEquals.go
+++ b/helpertools/CheckEquals.go
@@ -13,9 +13,14 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 	}
 
 	i := 0
+	ended := make([]bool, len(inputs)/2)
 
-	for {
+	for remaining := len(ended); remaining > 0; {
 		for j := 0; j < len(inputs); j += 2 {
+			if ended[j/2] {
+				continue
+			}
+
 			actual, actualOk := <-inputs[j]
 			expected, expectedOk := <-inputs[j+1]
 
@@ -24,7 +29,10 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 					return fmt.Errorf("not ended the same actual %v expected %v", actualOk, expectedOk)
 				}
 
-				return nil
+				ended[j/2] = true
+				remaining--
+
+				continue
 			}
 
 			if !reflect.DeepEqual(actual, expected) {
@@ -34,4 +42,6 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 
 		i++
 	}
+
+	return nil
 }
-- 
2.43.0


From 34bb1075ae6a68b53e2cd487712b8a2555e729b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 38/51] fix: SuperTrend without ATR used a percentage as a
 price distance

---
 trend/SuperTrend.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 1086142..ce98471 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -95,8 +95,7 @@ func (e *SuperTrend) Calculation() *SuperTrend {
 	if e.ChangeAtr {
 		atr = ta.Atr(highs, lows, closes, e.AtrPeriod)
 	} else {
-		natr := ta.Natr(highs, lows, closes, e.AtrPeriod)
-		atr = ta.Sma(e.AtrPeriod, natr)
+		atr = ta.Sma(e.AtrPeriod, ta.TrueRange(highs, lows, closes))
 	}
 
 	for i := 0; i < len(src); i++ {
-- 
2.43.0


From 047aaded2097833195a2c246e056c6f4ef3a2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 39/51] fix: SmartMoneyConcepts order blocks ignored prices
 above 99999999

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index b2240ff..a5af151 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -446,7 +446,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, atr []float64, list SmartMoneyConceptsDataOrderBlockList, obType int) SmartMoneyConceptsDataOrderBlockList {
 
-	var min = 99999999.0
+	var min = math.MaxFloat64
 	var max = 0.0
 	var idx = 1
 	var ob_threshold = atr
-- 
2.43.0


From 7e9f9f4c92175d0b9119de5faae96b61164fe527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 40/51] fix: Rsi dropped to 0 once the averages decayed below
 an absolute threshold

---
 trend/Rsi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index 5a27cc9..97c9160 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -142,7 +142,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 	if today > 0 {
 
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 > 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
@@ -184,7 +184,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 		prevLoss /= float64(inTimePeriod)
 		prevGain /= float64(inTimePeriod)
 		tempValue1 = prevGain + prevLoss
-		if !((-0.00000000000001 < tempValue1) && (tempValue1 < 0.00000000000001)) {
+		if tempValue1 > 0 {
 			outReal[outIdx] = 100.0 * (prevGain / tempValue1)
 		} else {
 			outReal[outIdx] = 0.0
-- 
2.43.0


From 3ebdb58525adb2a930c3f88a5ddbb093c6ea7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 41/51] fix: PivotMax/PivotMin returned the centre value when
 both sides shared a further extreme

---
 utils/ta/ta.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6a565a0..68a2d3f 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -899,7 +899,7 @@ func PivotMax(values []float64, index, left, right int) (val float64, position i
 	} else if leftVal < rightVal {
 		return rightVal, rightPositions
 	}
-	return values[index], index
+	return leftVal, leftPositions
 
 }
 
@@ -941,7 +941,7 @@ func PivotMin(values []float64, index, left, right int) (val float64, position i
 	} else if leftVal > rightVal {
 		return rightVal, rightPositions
 	}
-	return values[index], index
+	return leftVal, leftPositions
 
 }
 
-- 
2.43.0


From e0bb870f4ce9caf56b25683d374c7ca6a154d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 42/51] fix: SmartMoneyConcepts dropped a bullish order block
 before its bottom was broken

---
 trend/SmartMoneyConcepts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index a5af151..542ed6d 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -348,7 +348,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var orderBlockBullishList = e.OrderBlockBullish
 		var orderBlockBullishRemovelist SmartMoneyConceptsDataOrderBlockList
 		for j, v := range orderBlockBullishList {
-			if close < v.Close && !v.IsTop {
+			if close < v.Low && !v.IsTop {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
 			} else if close > v.High && v.IsTop {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
@@ -364,7 +364,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var orderBlockBearishList = e.OrderBlockBearish
 		var orderBlockBearishRemovelist SmartMoneyConceptsDataOrderBlockList
 		for j, v := range orderBlockBearishList {
-			if close < v.Close && !v.IsTop {
+			if close < v.Low && !v.IsTop {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
 			} else if close > v.High && v.IsTop {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
-- 
2.43.0


From 70cdd2cec19fad4f4fb2d69322a9f308c8b1810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 43/51] fix: SmartMoneyConcepts kept one order block more than
 OrderBlockNumber

---
 trend/SmartMoneyConcepts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 542ed6d..42d64f8 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -353,7 +353,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			} else if close > v.High && v.IsTop {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
 			}
-			if j > e.OrderBlockNumber && !orderBlockBullishRemovelist.Contains(v) {
+			if j >= e.OrderBlockNumber && !orderBlockBullishRemovelist.Contains(v) {
 				orderBlockBullishRemovelist = append(orderBlockBullishRemovelist, v)
 			}
 		}
@@ -369,7 +369,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 			} else if close > v.High && v.IsTop {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
 			}
-			if j > e.OrderBlockNumber && !orderBlockBearishRemovelist.Contains(v) {
+			if j >= e.OrderBlockNumber && !orderBlockBearishRemovelist.Contains(v) {
 				orderBlockBearishRemovelist = append(orderBlockBearishRemovelist, v)
 			}
 		}
-- 
2.43.0


From e95fa5096e11023700d1d69d14af8512c917a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 44/51] fix: SmartMoneyConcepts reported candle 1 as the order
 block when no candle of the interval qualifies

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 42d64f8..99af707 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -448,7 +448,7 @@ func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, a
 
 	var min = math.MaxFloat64
 	var max = 0.0
-	var idx = 1
+	var idx = index - 1
 	var ob_threshold = atr
 
 	if useMax {
-- 
2.43.0


From 871ba359a143d94ad59c0dcd93d74d93ff4a307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 45/51] fix: SmartMoneyConcepts gave the first trailing high
 and low the time of the wrong candle

---
 trend/SmartMoneyConcepts.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 99af707..2a96f35 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -188,10 +188,12 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 		if trail_up == 0.0 {
 			trail_up = high
+			trail_up_x = i
 		}
 
 		if trail_dn == 0.0 {
 			trail_dn = low
+			trail_dn_x = i
 		}
 
 		if i < e.SwingLenght {
-- 
2.43.0


From 360ac0c781a30f65421f2812e0134c2ff06bfcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 46/51] fix: SmartMoneyConceptsDataOrderBlockList.Remove of an
 absent block emptied the list

---
 trend/SmartMoneyConcepts_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts_type.go b/trend/SmartMoneyConcepts_type.go
index 2b71777..e685c24 100644
--- a/trend/SmartMoneyConcepts_type.go
+++ b/trend/SmartMoneyConcepts_type.go
@@ -51,5 +51,5 @@ func (e SmartMoneyConceptsDataOrderBlockList) Remove(k SmartMoneyConceptsDataOrd
 		}
 	}
 
-	return nil
+	return e
 }
-- 
2.43.0


From 4161485183a3a81b824f40a19025bb37e18461e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 47/51] fix: ConvertToNewInterval produced empty or partial
 candles when the series starts off a boundary

---
 utils/klines/kline.go | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index b385062..c9caf40 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -79,28 +79,14 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
 	}
 
-	// 有的时候不取整，重新计算开始、结束时间
-	newIntervalRangeHolder, err := CalculateCandleDateRanges(start, end, newInterval, 100000)
-	if err != nil {
-		return nil, err
-	}
-
-	var target int
-
-	// 对要返回的数据时间先赋值，后面好计算
-	for _, rangeHolder := range newIntervalRangeHolder.Ranges {
-		for _, intervalsData := range rangeHolder.Intervals {
-			if target >= len(candles) {
-				break
-			}
-			candles[target] = &Candle{
-				TimeUnix: intervalsData.Start.Time.Unix(),
-			}
-			target++
+	// 对要返回的数据时间先赋值，后面好计算；从第一根蜡烛开始连续分组，起始时间不要求对齐
+	for x := range candles {
+		candles[x] = &Candle{
+			TimeUnix: start.Add(time.Duration(x) * newInterval.Duration()).Unix(),
 		}
 	}
 
-	target = 0
+	var target int
 	for x := range e.Candles {
 		// 超出当前新蜡烛时间窗口的数据（例如末尾不完整的部分）不参与聚合
 		if e.Candles[x].TimeUnix >= candles[target].TimeUnix+int64(newInterval.Duration().Seconds()) {
-- 
2.43.0


From effabf5cb5d1a21245ab04b3b4bcf7a7d3382c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 48/51] fix: ta.AiCoinCCI ignored its factor

---
 utils/ta/ta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 68a2d3f..1714073 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -452,7 +452,7 @@ func AiCoinCCI(close []float64, period int, factor float64) []float64 {
 			cci[i] = 0 // 或者 math.NaN()
 			continue
 		}
-		cci[i] = (close[i] - matp[i]) / (0.015 * md[i])
+		cci[i] = (close[i] - matp[i]) / (factor * md[i])
 	}
 	return cci
 
-- 
2.43.0


From 53db6f7e8b9030b01de802c5cad2b8ddcdcb952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:57 +0000
Subject: [PATCH 49/51] fix: RemoveOutsideRange kept a candle outside an empty
 range and compared sub-second bounds in whole seconds

---
 utils/klines/kline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index c9caf40..1cab103 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -164,7 +164,7 @@ func (e *Item) RemoveOutsideRangeCopy(start, end time.Time) *Item {
 func (e *Item) RemoveOutsideRange(start, end time.Time) {
 	target := 0
 	for _, keep := range e.Candles {
-		if keep.TimeUnix == start.Unix() || (keep.TimeUnix > start.Unix() && keep.TimeUnix < end.Unix()) {
+		if t := time.Unix(keep.TimeUnix, 0); !t.Before(start) && t.Before(end) {
 			e.Candles[target] = keep
 			target++
 		}
-- 
2.43.0


From 1c533f15978c6e2542e8e58c1d76fd51944fa30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:05 +0000
Subject: [PATCH 50/51] fix: ConvertToNewInterval accepted a list whose missing
 candle is masked by a duplicate

---
 utils/klines/kline.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 1cab103..30f82b6 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -73,6 +73,16 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	for x := range e.Candles {
+		if expected := start.Add(time.Duration(x) * e.Interval.Duration()); e.Candles[x].TimeUnix != expected.Unix() {
+			return nil, fmt.Errorf("%w expected a candle at %s when converting from %s to %s interval",
+				errCandleDataNotPadded,
+				expected,
+				e.Interval,
+				newInterval)
+		}
+	}
+
 	oldIntervalsPerNewCandle := int(newInterval / e.Interval)
 	candles := make([]*Candle, len(e.Candles)/oldIntervalsPerNewCandle)
 	if len(candles) == 0 {
-- 
2.43.0


From 4969c36e6ddf59367b8fc2f4f95ac1b10a766d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:07 +0000
Subject: [PATCH 51/51] fix: LinearReg, its angle, intercept and slope were NaN
 for a period of one

---
 utils/ta/ta.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 1714073..6134ea8 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -42,7 +42,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		m := 0.0 // 单点没有斜率
+		if divisor != 0 {
+			m = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		b := (sumY - m*sumX) / inTimePeriodF
 		outReal[outIdx] = b + m*(inTimePeriodF-1)
 		outIdx++
@@ -85,7 +88,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		m := 0.0 // 单点没有斜率
+		if divisor != 0 {
+			m = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		outReal[outIdx] = math.Atan(m) * (180.0 / math.Pi)
 		outIdx++
 		today++
@@ -127,7 +133,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		m := (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		m := 0.0 // 单点没有斜率
+		if divisor != 0 {
+			m = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		outReal[outIdx] = (sumY - m*sumX) / inTimePeriodF
 		outIdx++
 		today++
@@ -169,7 +178,9 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 			sumXY += sumY - inTimePeriodF*tempValue2
 			sumY += inReal[today] - tempValue2
 		}
-		outReal[outIdx] = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		if divisor != 0 { // 单点没有斜率
+			outReal[outIdx] = (inTimePeriodF*sumXY - sumX*sumY) / divisor
+		}
 		outIdx++
 		today++
 	}
-- 
2.43.0

