#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for titles, anchors and commands)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TC_IND = "The indicator tests print values for one data file (which is not in the repository) and assert nothing about other inputs; nothing quantifies over series and parameters."
TC_NONE = "No test exercises this at all, and a test would sample a handful of inputs."
TC_KL = "The kline tests cover one or two hand-written lists each."
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], state=state or []))
DIRS = ["channel", "oscillator", "trend", "volume"]
IND = ["channel/*.go", "oscillator/*.go", "trend/*.go", "volume/*.go"]
SER = "every valid candle series (length 0 or more; low <= open, close <= high; positive prices; volumes of zero or more; rising times) and every realistic parameter set"
MON = "runtime monitor over generated workloads"

prop("C01", "One output record per candle, in order, carrying that candle's time",
 "For every candle series and parameter set, each indicator's result has exactly one record per input candle, in the same order, and every record carries the time of its own candle (including the first records and those of the warm-up). Every column accessor, record list and signal list has that same length. This holds for construction from candles and from price columns alike.",
 ["inputs", "configurations"], SER, TC_IND, IND, [("Calculation fills one record per close", "every indicator's Calculation"), ("GetData / GetList accessors", "trend/Kdj.go and others")],
 MON + ": length and time checker on every recorded output", "Checks the recorded output of all 47 indicators on generated series; no claim for inputs not generated.")
prop("C02", "Reading results repeatedly, in any order, always gives the same answer",
 "Calculation, reading the records, asking for signals and reading columns can be called on one indicator any number of times and in any order, and every answer equals the one a fresh indicator gives. No recalculation appends to, shifts, or otherwise changes earlier results, and no state survives from one calculation to the next: after candles were corrected in place, a recalculated indicator answers like a new one over the candles as they are now (or, where it took copies of the price columns when built, as they were then).",
 ["histories", "inputs"], "every finite sequence of public calls on one indicator, for " + SER, "Tests call each method once, in one order.", IND, [("lazy calculation when no data is present", "GetData / AnalysisSide"), ("e.data = nil at the start of Calculation", "Calculation")],
 MON + ": random call histories compared with a fresh instance", "Random histories of 6 to 12 calls per case over all indicators.")
prop("C03", "Indicators never modify their input and never influence one another",
 "Running any indicator leaves every candle, every price column handed in, and the order of candles exactly as they were. Two indicators over the same candles do not influence each other's results, whatever the order in which their calls are interleaved. The numeric series functions likewise leave their input slices untouched.",
 ["inputs", "histories"], "every indicator and series function, on " + SER + ", with interleaved calls on a second instance", TC_IND, IND + ["utils/ta/ta.go", "utils/klines/*.go"], [("GetOHLC copies the columns", "utils/klines/technical_analysis.go")],
 MON + ": before/after snapshots and twin instances", "Snapshot comparison of all inputs; interleavings of two instances.")
prop("C04", "No look-ahead: past values never depend on later candles",
 "The records and signals an indicator gives for the first n candles of a series are the same whether or not more candles follow. Appending candles never changes a value or signal already reported. (The market-structure indicator, which draws its lines back to the pivot by design, is outside this statement.)",
 ["inputs"], SER + ", and every prefix of it", "Tests compute one full series; none recomputes a prefix.", IND, [("each record is computed from a window that ends at its own candle", "Calculation")],
 MON + ": differential run on prefixes", "Compares full-series output with outputs on several prefixes of each series, tolerance 1e-12 relative.")
prop("C05", "Concurrent use over shared candles is race-free and changes no result",
 "Any number of goroutines may, at the same time and over one shared candle list, run indicators of their own, strategy batches, candle conversions and derived price columns; there is no data race and each obtains exactly the result it obtains alone. Several goroutines may also read one indicator that has already been calculated.",
 ["schedules", "inputs"], "every interleaving of such goroutines over one candle list", "No test starts a second goroutine on candles, and the race detector is never run.", IND + ["utils/interface.go", "utils/klines/*.go", "utils/ta/ta.go"], [("no package-level mutable state; inputs are copied into columns", "whole repository"), ("RunStrategies", "utils/interface.go")],
 "Go race detector plus sequential-equivalence monitor under injected delays", "Race detector on the schedules produced (hundreds of distinct recorded orders per run); not all schedules.")
prop("C06", "A strategy gives one Buy, Sell or Hold per candle, and batches keep order",
 "Every strategy's signal list has exactly one entry per candle, each of them Buy, Sell or Hold, and is Hold on the first candle; the list carries the strategy's name. Running a batch of strategies returns one result per strategy, in the order given, each equal to what that strategy gives on its own; an empty batch gives an empty result. The textual form of the three decisions is stable and distinct.",
 ["inputs", "configurations"], SER + ", and every list of strategies", TC_IND, IND + ["utils/interface.go", "utils/Side.go"], [("AnalysisSide", "every strategy"), ("RunStrategies", "utils/interface.go"), ("Side.String, Sides.Strings", "utils/Side.go")],
 MON + ": signal-shape checker and batch-versus-single comparison", "All strategies on all generated market shapes.")
prop("C07", "Changing the unit of price or volume scales results and keeps signals",
 "Multiplying all prices of a series by one factor, or all volumes by another, multiplies each output by the power of that factor that its definition implies (price-like outputs by the factor, ratios and percentages not at all) and leaves every signal unchanged.",
 ["inputs"], SER + ", and every pair of power-of-two factors", "No test compares two runs at different scales; absolute thresholds and default prices hide at the one scale tested.", IND, [("formulas are homogeneous in price and volume", "Calculation"), ("zero guards compare with exactly zero", "utils/ta/ta.go")],
 MON + ": metamorphic comparison under exact power-of-two scaling", "Power-of-two factors keep floating point exact, so the relation is exact.")
prop("C08", "Every output is a finite number, whatever the market looks like",
 "For every valid candle series, including flat prices, zero volume, identical candles, monotone, one-candle and extremely small or large prices, no indicator value, level, accessor column or intermediate average is NaN or infinite.",
 ["inputs", "configurations"], SER, "Degenerate markets (flat, zero volume) appear in no test.", IND + ["utils/ta/ta.go", "utils/regression.go"], [("zero-denominator guards", "utils/ta/ta.go and indicators")],
 MON + ": NaN/Inf checker on every value", "Every output value of every case is inspected.")
prop("C09", "Bounded oscillators stay in range and band levels stay ordered",
 "RSI, StochRSI, stochastic K and D, KDJ's RSV, K and D, Money Flow Index, the ADX lines and the Ulcer index stay within 0 to 100, Williams %R within -100 to 0, Chaikin Money Flow within -1 to 1, breakout percentages within 0 to 100, and ranges, deviations, Vortex lines and the negative volume index are never negative. Lower, middle and upper lines of Bollinger, Donchian and Keltner channels and the Camarilla levels are always in order, and the close lies inside the Donchian channel. Moving averages, channel middles, Ichimoku lines and the volume-weighted average never leave the range of the prices seen so far.",
 ["inputs", "configurations"], SER, TC_IND, IND, [("normalisation by window range or by sums", "Calculation")],
 MON + ": range, order and envelope invariants on every record", "Invariants checked on each record with rounding tolerance 1e-9.")
prop("C10", "Empty, one-candle and shorter-than-period series never fail",
 "Every indicator, strategy, series function and candle operation accepts a series of any length, including none and fewer candles than its periods, without panicking or hanging, and returns as many entries as it was given candles.",
 ["inputs", "configurations"], "series of 0 to 60 candles, every default and random parameter set", "Tests only use one long series.", IND + ["utils/ta/ta.go", "utils/klines/*.go"], [("length guards", "utils/ta/ta.go and indicators")],
 MON + ": panic and length observer over short series", "All indicators over every length from 0 up, defaults and random periods.")
prop("C11", "Building from price columns or with defaults equals building from candles",
 "An indicator built from separate price columns gives exactly the records and signals of one built from the candles holding those columns. An indicator built by its default constructor equals one built with the documented default parameters. Parameters set in an indicator's exported fields, before its first reading or before it is calculated again, count like parameters it was built with.",
 ["inputs", "configurations"], SER, TC_NONE, IND, [("New...OHLC constructors", "every indicator"), ("NewDefault... constructors", "every indicator")],
 MON + ": differential run of the constructors", "Exact comparison of the three constructors on the same data.")
prop("C12", "Channel, volume and oscillator signals follow their published rules",
 "On every candle after the first, judged on the indicator's own values: Bollinger buys when the close crosses above the upper line and sells when it crosses below the lower one; Donchian and Keltner buy and sell when the close crosses above and below the middle line; the absolute price, awesome and Chaikin oscillators when their value crosses above and below zero; percentage price and stochastic oscillators when the fast line crosses above and below its signal line; Williams %R buys falling through -80 and sells rising through -20, Money Flow Index buys falling through 10 and sells rising through 90; the projection oscillator buys above and sells below its signal line. Ichimoku buys and sells when the close crosses both leading spans at once, up and down; Camarilla buys when, below the average, a candle opens under and closes over the fourth resistance of the first candle of its day, and sells in the mirrored case. In all other cases the decision is Hold; a crossing means strictly on one side on the previous candle and strictly on the other side now.",
 ["inputs", "configurations"], SER, TC_IND, ["channel/*.go", "oscillator/*.go", "volume/MoneyFlowIndex.go"], [("AnalysisSide", "channel/Boll.go, channel/DonchianChannel.go, channel/KeltnerChannel.go, oscillator/*.go, volume/MoneyFlowIndex.go")],
 MON + ": signal-rule checker on recorded values", "Each decision is recomputed from the recorded values and candles.")
prop("C13", "Trend signals follow their published rules",
 "On every candle after the first, judged on the indicator's own values: CCI buys falling through -100 and sells rising through 100; RSI buys falling through 20 and sells falling through 80; MACD buys when DIF crosses above DEA with both positive and sells when it crosses below with both negative; KDJ buys and sells when K and J cross D at once; StochRSI, StochasticHeat (slow against fast) and UTBot (close against stop) on line crossings, up and down. SuperTrend and PivotPointSuperTrend give a signal exactly where a new up or down trend begins, TraderXO on the first candle of each change of order of its averages, EMAVegas when the filter average, both tunnels, the candle's colour and a tunnel crossing within the ten candles before agree. In all other cases the decision is Hold.",
 ["inputs", "configurations"], SER, TC_IND, ["trend/*.go"], [("AnalysisSide", "trend/*.go")],
 MON + ": signal-rule checker on recorded values", "Each decision is recomputed from the recorded values and candles.")
prop("C14", "Moving averages equal their definitions",
 "Simple averages over a window of p values take the mean of the last p values, or of all values so far while there are fewer; the exponential average starts at the first value and moves by 2/(p+1) of the difference; the running (Wilder) average is the mean of all values for the first p and then moves by 1/p of the difference; the weighted average weighs the newest value p and the oldest 1. The double exponential average is twice the average less the average of the average. The indicators built on them report exactly these numbers for every candle.",
 ["inputs", "configurations"], SER, "The ta tests compare a few ten-element slices.", ["utils/ta/ta.go", "trend/Sma.go", "trend/Ma.go", "trend/Ema.go", "trend/Rma.go", "trend/Dema.go"], [("Sma, Ema, Rma, Wma, Dema", "utils/ta/ta.go")],
 MON + ": naive reference model as oracle", "Window-by-window reference computed from the definition; relative tolerance 1e-7.")
prop("C15", "Rolling highs, lows and pivots are the true extremes of their window",
 "A rolling maximum or minimum equals the largest or smallest of the last p values (of all so far while there are fewer), for any values including negative, equal and monotone ones. A pivot high (low) is reported exactly where a value is the largest (smallest) of the given numbers of neighbours on both sides, and the nearest-extreme searches return the extreme value and a position that holds it. The Donchian channel is the rolling high, low and their mid-point of the closes.",
 ["inputs", "configurations"], "every series of numbers and every window or neighbourhood size", "The tests cover single monotone slices.", ["utils/ta/ta.go", "container/bst/bst.go", "channel/DonchianChannel.go"], [("Max, Min over a search tree", "utils/ta/ta.go"), ("PivotHigh, PivotLow, PivotMax, PivotMin, Highest, Lowest", "utils/ta/ta.go")],
 MON + ": naive window scan as oracle", "Exact comparison.")
prop("C16", "The binary search tree behaves as a sorted multiset",
 "After any sequence of insertions and removals, the tree contains exactly the values inserted and not yet removed, counting duplicates: minimum and maximum agree with that multiset, and a removal reports whether a value was there and removes exactly one copy. An emptied tree behaves like a new one.",
 ["histories", "inputs"], "every finite sequence of operations on numbers, with duplicates and any insertion order", "One short fixed sequence per method is tested.", ["container/bst/bst.go", "container/comparable.go"], [("Insert, Inserts, Remove, Min, Max", "container/bst/bst.go")],
 MON + ": model-based history checker", "Random operation histories against a multiset model, after every step.")
prop("C17", "The queue delivers every element exactly once, in order",
 "After any sequence of operations the queue holds exactly the elements put in and not yet taken out, in the order in which they were put in; taking from it returns the oldest element, and it says it is empty exactly when nothing is left. An empty queue never hands out a value, and emptying and refilling it leaves no trace of earlier elements.",
 ["histories"], "every finite sequence of queue operations", "The tests run a fixed sequence of a few operations.", ["container/queue/queue.go"], [("linked list with head and tail", "container/queue/queue.go")],
 MON + ": FIFO model history checker", "Random operation histories against a list model, after every step.")
prop("C18", "Rolling statistics and regressions equal their definitions",
 "Rolling sum, variance, standard deviation, mean deviation, and linear-regression value, slope, intercept and angle over a window equal the exact statistic of that window's values at every position, independent of what lies before the window, with zero (or the part available, for sums) before a full window. Least-squares fits give the line minimising the squared error, also over moving windows, and a constant series gives zero spread and slope.",
 ["inputs", "configurations"], "every series of numbers (any magnitude, flat, negative, large offsets) and every period", "The tests use a ten-element slice at most.", ["utils/ta/ta.go", "utils/regression.go"], [("running sums over a window", "utils/ta/ta.go"), ("LeastSquare and moving variants", "utils/regression.go")],
 MON + ": naive per-window statistic as oracle", "Tolerances cover the rounding of one-pass formulas only.")
prop("C19", "Volatility measures and bands equal their definitions",
 "True range is the larger of the candle's range and its distances from the previous close; the average true range is its Wilder average. Bollinger bands lie the given number of population standard deviations around the simple average, Keltner bands two average true ranges around the exponential average, the Ulcer index is the root of the simple average of squared percentage drawdowns from the rolling high, and the Chandelier exits lie three average true ranges below the rolling high and above the rolling low.",
 ["inputs", "configurations"], SER, TC_IND, ["trend/Atr.go", "channel/Boll.go", "channel/KeltnerChannel.go", "channel/UlcerIndex.go", "utils/ta/ta.go"], [("TRange, Atr, StdDev", "utils/ta/ta.go"), ("Calculation", "channel/*.go")],
 MON + ": naive reference model as oracle", "Whole record compared for every candle.")
prop("C20", "Momentum oscillators equal their definitions",
 "RSI, stochastic oscillator, StochRSI, Williams %R, KDJ, CCI (both variants) and the projection oscillator report, for every candle, the value their published formula gives for the window ending at that candle: Wilder-smoothed gains over gains plus losses; position of the close within the rolling high-low range; the same of RSI values, twice smoothed; KDJ with K and D starting at 50 and moving by one third, J = 3K - 2D; deviation of the price from its average over 0.015 mean deviations (over the given factor where the function takes one). A range of zero gives the documented constant instead of a division.",
 ["inputs", "configurations"], SER, TC_IND, ["trend/Rsi.go", "trend/StochRsi.go", "trend/Kdj.go", "trend/Cci.go", "trend/AiCoinCCI.go", "oscillator/StochasticOscillator.go", "oscillator/WilliamsR.go", "oscillator/ProjectionOscillator.go", "utils/ta/ta.go"], [("Calculation", "each file"), ("Stochastic, CCI", "utils/ta/ta.go")],
 MON + ": naive reference model as oracle", "Values whose denominator is rounding noise are withheld and counted.")
prop("C21", "MACD-type oscillators are the stated differences of averages",
 "MACD reports DIF as fast less slow exponential average, DEA as the exponential average of DIF and the bar as twice their difference; the percentage price and volume oscillators report the difference in percent of the slow average, with signal and histogram. The absolute price oscillator is the difference of the 14 and 30 exponential averages of the close, the awesome oscillator that of the 5 and 34 simple averages of the mid-price, and the Chaikin oscillator that of two exponential averages of the accumulation/distribution line.",
 ["inputs", "configurations"], SER, TC_IND, ["trend/Macd.go", "oscillator/*.go", "utils/ta/ta.go"], [("Calculation", "each file")],
 MON + ": naive reference model as oracle", "Whole record compared for every candle.")
prop("C22", "Volume indicators equal their definitions",
 "On-balance volume adds the volume of rising and subtracts that of falling closes; accumulation/distribution accumulates volume weighted by the close's place in the candle; money flow index is the share of positive flow in the window, in percent; Chaikin money flow the window's money-flow volume over its volume; force index the exponential average of price change times volume; ease of movement the average of mid-price change times range per 100 million volume; the volume-weighted average weighs closes by volume; volume price trend accumulates volume times relative change; negative volume index compounds the price change on candles whose volume does not rise, from 1000. Each is reported for every candle, and zero volume contributes nothing.",
 ["inputs", "configurations"], SER, TC_IND, ["volume/*.go", "utils/ta/ta.go"], [("Calculation", "volume/*.go")],
 MON + ": naive reference model as oracle", "Whole record compared for every candle.")
prop("C23", "Trend-following stops and averages equal their definitions",
 "SuperTrend and PivotPointSuperTrend report the trailing lines at the given number of average true ranges from the mid-price or the pivot centre, tightening only in the direction of the trend, and mark a new trend exactly when the close passes the opposite line. The UT Bot stop trails the close by the given number of average true ranges, never retreats while the close stays on one side, and switches sides when it is crossed. TraderXO and EMAVegas report their exponential averages.",
 ["inputs", "configurations"], SER, TC_IND, ["trend/SuperTrend.go", "trend/PivotPointSuperTrend.go", "trend/UTBot.go", "trend/TraderXO.go", "trend/EMAVegas.go"], [("state machine over candles", "Calculation")],
 MON + ": independent state machine as oracle", "A run is compared up to the first decision that two equal-up-to-rounding values would decide.")
prop("C24", "Directional, Vortex, regression-candle and heat lines match their definitions",
 "The directional lines are the Wilder-smoothed positive and negative directional movement in percent of the smoothed true range, and ADX is the simple average of their relative difference; Vortex lines are summed movements over summed true range in the window. Regression candles are the end points of the least-squares line of each price column with a simple or exponential signal average, and the stochastic heat line sums the smoothed stochastics of all 28 lengths over one hundred, with a smoothed slow line.",
 ["inputs", "configurations"], SER, TC_IND, ["trend/AverageDirectionalIndex.go", "trend/Vortex.go", "trend/LinearRegressionCandles.go", "trend/StochasticHeat.go", "utils/ta/ta.go"], [("Calculation", "each file")],
 MON + ": naive reference model as oracle", "Whole record compared for every candle.")
prop("C25", "Camarilla levels and Ichimoku lines match their definitions",
 "Every Camarilla level is the published function of the candle's own high, low and close: the first four levels lie 1.1 ranges over 12, 6, 4 and 2 from the close on either side, the fifth is high over low times the close with the sixth 1.168 times beyond, lower levels mirrored. Ichimoku conversion, base and second leading lines are mid-points of the rolling high and low over the conversion period, 26 and the leading period, the first leading line is the mean of conversion and base, and the lagging line is the close shifted by its period.",
 ["inputs", "configurations"], SER, TC_IND, ["oscillator/Camarilla.go", "oscillator/IchimokuCloud.go"], [("Calculation", "each file")],
 MON + ": naive reference model as oracle", "Whole record compared for every candle.")
prop("C26", "Market-structure labels, order blocks and strong/weak levels match the pivots",
 "Breaks of structure and changes of character are reported exactly when the close crosses an unbroken swing (or internal, five-candle) high upwards or low downwards, drawn at the pivot's price from the pivot to the crossing candle, and as a change of character exactly when the trend of that scale was the opposite; each pivot is used once. The order block of each break is the most extreme candle of ordinary range within the broken structure, carries that candle's prices and time, disappears when a close passes its far side, and no more than the configured number are kept, newest first, without duplicates. Equal highs and lows (when enabled) join successive pivots closer than the threshold, and the strong and weak levels are the trailing extreme since the last swing with the time of its candle.",
 ["inputs", "configurations", "histories"], SER + ", with equal-level detection on or off", TC_IND, ["trend/SmartMoneyConcepts.go", "trend/SmartMoneyConcepts_type.go", "utils/ta/ta.go"], [("swings, obCoord, Calculation", "trend/SmartMoneyConcepts.go"), ("order-block list", "trend/SmartMoneyConcepts_type.go")],
 MON + ": independent event model as oracle, list model for order blocks", "Exact comparison of every line, block and level; cases with a threshold tie are withheld.")
prop("C27", "Stream helpers deliver exactly the right values, then end, leaking nothing",
 "Every stream helper (map, duplicate, combine, pipe, shift, skip, round, convert from and to slices, compare, drain, streaming average) delivers exactly the values its definition gives, in order and once each, whatever the capacities, lengths, speeds and scheduling of producers and consumers. When its inputs end its outputs are closed; combining two streams of different length stops with the shorter and drains the longer, so no producer stays blocked. No data race occurs and no goroutine outlives its streams.",
 ["schedules", "inputs", "programs"], "every composition of the helpers, every input length and capacity, every schedule of the goroutines", "Tests run one short unbuffered stream per helper, without delays and without looking at leftover goroutines.", ["helpertools/*.go", "utils/ta/ta.go"], [("one goroutine per helper, closing its output", "helpertools/*.go")],
 "Go race detector, goroutine-leak observer and sequence checker over random pipelines with injected delays", "Thousands of distinct recorded event orders per run, in plain and race builds; not all schedules.")
prop("C28", "Resampling to a longer interval aggregates and conserves exactly",
 "Converting to a longer interval that is a multiple of the current one groups consecutive candles in fixed numbers from the first, wherever the series starts: each new candle has the open and time of its first, the close of its last, the highest high, the lowest low and the sums of volume, amount and trade count of its group; an incomplete last group is dropped, and converting in two steps gives what converting in one gives. Identity of the instrument is kept, the source is not modified, and an interval that is shorter, equal, or not a multiple, a list too short to fill one candle, or a list with missing candles, is refused with an error.",
 ["inputs", "configurations"], "every candle list and every pair of intervals", TC_KL, ["utils/klines/kline.go"], [("ConvertToNewInterval", "utils/klines/kline.go")],
 MON + ": grouped-aggregation oracle with conservation sums", "Field-by-field comparison of every new candle.")
prop("C29", "Sorting, de-duplicating and trimming candle lists lose and invent nothing",
 "Sorting orders candles by time in the requested direction and is a permutation; removing duplicates keeps exactly the first candle of each time, in order; trimming to a range keeps exactly the candles from its start up to but not including its end, in order, with the copying variant leaving the original untouched; clearing empties the list.",
 ["inputs", "histories"], "every candle list (unsorted, with duplicates, gaps, empty) and every range", TC_KL, ["utils/klines/kline.go"], [("SortCandlesByTimestamp, RemoveDuplicates, RemoveOutsideRange, RemoveOutsideRangeCopy, Clear", "utils/klines/kline.go")],
 MON + ": permutation and subset model as oracle", "Exact comparison by candle identity.")
prop("C30", "Derived prices, column extraction and Heikin-Ashi candles are exact",
 "Mid, typical and average prices and the extracted columns equal the stated mean or the candle's field for every candle, and are copies. Heikin-Ashi candles close at the mean of the four prices, open at the middle of the previous Heikin-Ashi body (of the candle's own body for the first), and span those and the candle's high and low; identity, times and the change and direction of each source candle are kept and the source list is untouched.",
 ["inputs"], SER, TC_KL, ["utils/klines/technical_analysis.go"], [("GetOHLC, HL2, HLC3, OHLC4, ToHeikinAshi", "utils/klines/technical_analysis.go")],
 MON + ": naive reference model as oracle", "Every field compared.")
prop("C31", "Date-range splitting partitions the interval exactly",
 "Splitting a time span into requests covers it with consecutive intervals exactly once, without gap or overlap, no request holding more than the limit (one request when there is no limit), each sub-interval one candle long. A span asked for off the interval's boundaries is first rounded to the nearest ones. Invalid spans are refused with the matching error, the count of candles in a span is the number of whole intervals, each named interval has exactly the length its name says and prints the text of that length, and asking whether there is data at a date answers from the interval that holds the date.",
 ["inputs", "configurations"], "every aligned span, interval and limit", TC_KL, ["utils/klines/kline.go", "utils/klines/kline_type.go"], [("CalculateCandleDateRanges, TotalCandlesPerInterval", "utils/klines/kline.go"), ("Interval methods", "utils/klines/kline_type.go")],
 MON + ": partition checker", "Coverage, order, limit and count checked for each returned plan.")
prop("C32", "Element-wise series functions act exactly element by element",
 "Adding, subtracting, multiplying and dividing series or by constants, absolute value, square root, powers, sign filters, shifts and differences give at every position exactly the function of the elements at that position, with a result as long as the input and the inputs unmodified. Division by zero, where guarded, gives zero. A missing value is replaced and every other kept, and a crossing is reported exactly when the value before last lay on one side of the level and the last lies on the other.",
 ["inputs"], "every pair of equally long series and every constant", "Tests compare slices of a few elements.", ["utils/ta/ta.go"], [("element-wise functions", "utils/ta/ta.go")],
 MON + ": scalar loop as oracle", "Exact comparison on each element.")
prop("C33", "General helpers convert, round and validate exactly",
 "A number held as text converts to exactly that value, and anything else (a value of another type, malformed or padded text) is refused with an error; rounding to decimals returns the nearest such decimal; reading a file and decoding or encoding JSON round-trips candles exactly and reports errors for malformed input. Date checks return the matching error for unset, equal, reversed and future dates and none for valid ones; the conditional helper returns the selected value. The textual form of a candle (and of a directional-index record) shows its local time and its own values.",
 ["inputs"], "every supported value, file content and date pair", TC_NONE, ["utils/commonutils/common.go"], [("FloatFromString, FormatDecimalFloat64, JSONDecode, StartEndTimeCheck, If, ReadFile", "utils/commonutils/common.go")],
 MON + ": direct oracle and round trip", "Files are written to a scratch directory only.")
prop("C34", "Breakout statistics and reversal counts equal their definitions",
 "For every level the breakout indicator reports the percentage of candles after a rising (falling) candle that exceeded the previous high, and undercut the previous low, by that many steps, updated at each occurrence, with the level prices next to them and a tally of won and lost predictions; a requested number of levels outside 1..5 acts as the nearest of these. Reversal signals appear exactly on the ninth consecutive close below (not below) the close four candles earlier when the low (high) of that or the previous candle also passes those of the two candles before, and the count restarts when the direction changes.",
 ["inputs", "histories"], SER, TC_IND, ["trend/BreakoutProbability.go", "trend/ReversalSignals.go"], [("Calculation, AnalysisSide", "each file")],
 MON + ": independent event counter as oracle", "A run is compared up to the first decision that rounding could turn.")

prop("C35", "The demonstration program shows every candle with every strategy's decision",
 "Run in a directory with a candle file, the demonstration program prints exactly one line per candle, in order, with its running number, local time and close followed by the decision of each of its strategies for that very candle, in a fixed order, each named and equal to what the strategy decides on its own; buys and sells are highlighted in different colours. It ends normally on a file of any number of candles.",
 ["inputs"], "every readable candle file", "The program has no test.", ["main.go", "utils/helper.go", "utils/interface.go", "utils/klines/kline.go"], [("main", "main.go"), ("RunStrategies", "utils/interface.go"), ("printing helpers", "utils/helper.go")],
 MON + ": end-to-end run of the built program, output checked line by line", "The program is built from the working tree and run on generated files in a scratch directory.")

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["return values of the public API"], "hook_needed": None}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks: every property is observable through the public API. Known findings and repairs: known_findings.txt. Replay one case: bash check.sh <id> <tier> <case label> with the same VERIF_SEED."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
