TA = "utils/ta/ta.go"
REAL = "Exact real arithmetic (rounding outside the claim). "

P("C01", "The search tree behaves as an ordered multiset",
  "After any sequence of insertions and removals, the tree's minimum and maximum are the smallest and largest of the values still held, duplicates counted separately. Removing a value reports whether it was held and removes exactly one copy.",
  ["histories", "inputs"], "every sequence of inserts and removes, every value of the keys",
  "The tests replay a couple of fixed sequences; removal shapes (leaf, one child, two children, root, duplicates) depend on the order of values.",
  ["container/bst/bst.go", "container/comparable.go"],
  [("Insert/Remove/Min/Max", "container/bst/bst.go"), ("generic comparison", "container/comparable.go")],
  "Up to 4 inserts then 2 removes and all 4-step mixed sequences over arbitrary float64 keys (thorough: 5+5, 6 steps); every order of insertion of up to 6 distinct keys (thorough 7) and of up to 5 keys with ties (6), then removal of each; int64 and int keys smaller.")

P("C02", "The queue hands values back in arrival order, none lost or invented",
  "Values leave the queue in exactly the order they were put in, each exactly once; its size is the number of values inside and removing from an empty queue is reported rather than inventing a value.",
  ["histories", "inputs"], "every sequence of put and take operations up to the bound",
  "Tests use one fixed sequence; emptying and refilling the queue exercises head/tail hand-over.",
  ["container/queue/queue.go"], [("linked list head/tail", "container/queue/queue.go")],
  "All operation sequences of 7 steps (thorough 9) on whole numbers; nil, equal neighbours and values of mixed kinds; one deep run of 70 (300) values.")

P("C03", "Stream helpers lose, add and reorder nothing, end, and never deadlock",
  "Whatever the schedule: the helpers on channels (to and from slices, drain, map, duplicate, pair-wise combination, shift, skip, pipe, rounding, comparison) deliver exactly the values their definition gives, in order, and then close their output; combining two streams of different length stops at the shorter one and drains the longer; nothing blocks for ever, crashes or races, and no goroutine is left behind once the outputs have been read.",
  ["schedules", "inputs", "configurations"], "every interleaving of the producers, the helpers' goroutines and the readers; every length, count and value within the bounds",
  "Tests run one schedule with one set of values on unbuffered channels; lost wake-ups, early closing and leaks need other lengths, buffers or timings.",
  ["helpertools/"], [("goroutine per stage", "helpertools/Operate.go"), ("fan-out", "helpertools/Duplicate.go"), ("hand-over and close", "helpertools/Pipe.go")],
  "Streams of up to 3-5 arbitrary values (thorough 5-9), counts and copies up to 5, sources unbuffered, pre-filled or with a buffer of one; one pass of each helper with 24 values and a shift of 70. All schedules: one class of equivalent schedules where the program itself orders every use of each channel end (checked), otherwise all of them.")

P("C04", "The streaming moving average equals the windowed average",
  "Whatever the schedule, the i-th value leaving the streaming simple moving average is the sum of the last `period` inputs divided by the period (values before the first count as zero), for whole numbers with integer division; as many values leave as enter, and the stream ends.",
  ["schedules", "inputs", "configurations"], "every interleaving of the six goroutines, every series and period within the bounds",
  "The only test averages one short series; the running sum is shared between goroutines' stages and the window is two copies of the stream kept in step.",
  [TA, "helpertools/"], [("duplicate, shift and combine", TA)],
  "Up to 4 arbitrary values and periods 1-3 (thorough 6 / 5), and 14 (24) values at periods 1, 5, 9, 30; float64 (exact reals) and int64.")

P("C05", "Moving maximum and minimum are the window's extremes",
  "Each output of the moving maximum (minimum) is the largest (smallest) of the last `period` inputs, over the available values at the start, one output per input, and the input is left as it was. The highest/lowest helpers give the extreme of the last k values.",
  ["inputs", "configurations"], "every series and every period",
  "Evictions, duplicates and ties are data dependent; tests have no case for them.",
  [TA, "container/bst/bst.go"], [("Max/Min over a search tree", TA), ("Highest/Lowest", TA)],
  REAL+"Series up to 4 arbitrary values with periods 1-4 (thorough 6 / 5), and 24-value series with two arbitrary values and periods 6-8 (thorough 6-14).")

P("C06", "Simple moving average, moving sum, cumulative sum and mean are exact",
  "Each simple moving average (sum) is the average (sum) of the last `period` values, of the available ones at the start; all variants agree, keep the length and do not modify the input.",
  ["inputs", "configurations"], "every series and every period",
  "The only test averages one constant series; an off-by-one window is invisible on it.",
  [TA], [("MA/Sma/Sum/Cum/Mean", TA)],
  REAL+"Series up to 6 arbitrary values, periods 1-7 (thorough 9/10), plus a longer series at default periods.")

P("C07", "Exponential averages follow their recurrences",
  "The exponential average starts at the first value and moves by 2/(period+1) of the distance to each new value; the double exponential average is 2*EMA-EMA(EMA); the running average is the plain mean until the period is filled, then moves by 1/period. Every exponential average stays between the smallest and largest value seen.",
  ["inputs", "configurations"], "every series and every period",
  "No test compares these with their definition on varying data.",
  [TA], [("Ema/Dema/Rma", TA)], REAL+"Series up to 6 values, periods 1-7 (thorough longer), one longer run at period 14.")

P("C08", "Weighted average and linear regression fit each window exactly",
  "The weighted average weights the newest value `period` and the oldest 1; the linear-regression outputs (value, intercept, slope, angle, forecast) are those of the least-squares line through the last `period` values, zero before the first full window, and short series give zeros rather than a crash.",
  ["inputs", "configurations"], "every series, including shorter than the period, and every period",
  "No tests; closed-form sums hide index mistakes that only some windows expose.",
  [TA], [("Wma/LinearReg*", TA)], REAL+"Series up to 6 values, periods 2-5; length 16 at period 14. atan is uninterpreted (monotone, sign, bounds).")

P("C09", "Variance and deviation measures match their definitions",
  "Moving variance, standard deviation, mean deviation and deviation helpers equal the textbook value over each window, are never negative, and short or empty series give zeros rather than a crash or NaN.",
  ["inputs", "configurations"], "every series, including short and empty, and every period",
  "Three fixed samples are tested for one of the helpers.",
  [TA], [("Variance/StdDev/SD/Dev/MeanDeviation", TA)], REAL+"Series up to 5 values, periods up to 5.")

P("C10", "True range and average true range follow Wilder's definition",
  "True range is the largest of high-low and the distances of high and low from the previous close; the average true range starts with the mean of the first full window and then moves by 1/period; the normalised variant is the percentage of the close.",
  ["inputs", "configurations"], "every price series with high >= low, every period, including series not longer than the period",
  "No tests.", [TA], [("TrueRange/Atr/Natr", TA)], REAL+"Series up to 6 bars, periods 1-5; 20 bars at period 14.")

P("C11", "Vector helpers act element by element and never corrupt their input",
  "Addition, subtraction, multiplication, absolute value, sign split, shift, difference, rounding and generation act on each position independently with the length kept and operands untouched. Division gives 0, never NaN or infinity, wherever the quotient is not finite, and the NaN filter replaces NaN and nothing else.",
  ["inputs", "configurations"], "every vector; bit-precisely every float64 pair for division and NaN filtering",
  "No tests; special values (NaN, infinities, subnormals) need every bit pattern.",
  [TA], [("Add/Subtract/Multiply/Divide/Abs/Shift*/Diff/Round*/Nz*", TA)],
  "Vectors up to 4 (thorough 6) real values; Divide and Nz bit-precise over all float64 pairs; rounding for |value*10^d| <= 10^6, d = 0..4.")

P("C12", "Pivots and crossings are reported exactly where they occur",
  "A pivot high (low) is reported at a bar exactly when it is the extreme of the surrounding window, and a crossing exactly when the order of the two series changed between the last two bars; values of any sign and tied extremes included.",
  ["inputs", "configurations"], "every series and window sizes",
  "No tests; ties and negative values decide the edge cases.",
  [TA], [("PivotHigh/PivotLow/PivotMax/PivotMin/CrossOver/CrossUnder", TA)], REAL+"Series up to 6 values, left/right windows up to 2.")

P("C13", "Least squares gives the best-fitting line",
  "The fitted slope and intercept are those of the least-squares line through the points (x, y): residuals sum to zero and are orthogonal to x; the moving variant fits each window of the last `period` points.",
  ["inputs", "configurations"], "every point set with at least two distinct x, every period",
  "No tests.", ["utils/regression.go"], [("least squares", "utils/regression.go")], REAL+"Up to 5 points.")
KL = "utils/klines/klines.go"
ALLI = ["trend/", "oscillator/", "channel/", "volume/"]
LONG = " Default periods beyond the warm-up: 33 and 61 fixed candles (thorough 95) with an arbitrary last one."
GEN = "All 47 indicators with default and with small periods, every series of candles, the numbers in them arbitrary. "

P("C14", "Converting candles to a longer interval aggregates every candle exactly",
  "Each candle of the new interval opens with its first source candle, closes with its last, has their highest high and lowest low and the sum of their volumes and amounts; only complete intervals are returned, each source candle counts once, the source is not modified, and bad requests give an error, not a crash.",
  ["inputs", "configurations"], "every source series and every supported multiple of the interval",
  "The tests convert one data file and print it.",
  [KL], [("ConvertToNewInterval", KL)], REAL + "Up to 7 source candles, factors 2-3 (thorough larger), plus 15 one-minute and 24 hourly candles (thorough 60); aligned, unaligned and gap-free series. A known finding covers unaligned starts.")

P("C15", "Sorting, filtering and de-duplicating candles lose and invent nothing",
  "Sorting orders by time in the requested direction and keeps exactly the same candles; the time-range copy holds exactly the candles within the range, unmodified, with the item's identity; removing duplicates keeps one candle per time.",
  ["inputs"], "every series of timestamps, including equal ones",
  "Tests use one sample item.", [KL], [("Sort*/RemoveDuplicates/RemoveOutsideRange/GetCandles", KL)], "Up to 4 candles with arbitrary times (thorough 5).")

P("C16", "A requested time window is split into ranges that tile it",
  "The ranges computed for a window cover it from its rounded start to its rounded end without gap or overlap, in intervals of the requested length, no range longer than the limit and only the last one shorter; bad windows and intervals give an error; the candle count is the number of whole intervals; data is reported at an instant exactly when the interval holding it is marked.",
  ["inputs", "configurations"], "every window, interval, limit and instant",
  "No test calls these.", [KL, "utils/commonutils/common.go"], [("CalculateCandleDateRanges/TotalCandlesPerInterval/HasDataAtDate", KL), ("StartEndTimeCheck", "utils/commonutils/common.go")],
  "Windows of up to 13 intervals (thorough 24) of a minute, an hour or a day, their ends off by any number of seconds below half an interval, limits 0-12 (thorough 25); arbitrary instants.")

P("C17", "Price columns and Heikin-Ashi candles follow their definitions",
  "The price-series accessors return, in candle order and with one value per candle, the candle's field or the named average of its prices (HL2, HLC3, OHLC4). Each Heikin-Ashi candle opens at the middle of the previous candle's body, closes at the average of open, high, low and close, its high and low enclose its body and the source's, time and identity are kept. The source item is not modified.",
  ["inputs"], "every candle series", "The test prints one converted file; no test checks values.", [KL, "utils/klines/technical_analysis.go"], [("GetOHLC, HL2, HLC3, OHLC4, ToHeikinAshi", "utils/klines/technical_analysis.go")], REAL + "Up to 4 candles (thorough 6).")

P("C18", "Every indicator gives one entry per candle, the same on every call",
  "Reading an indicator gives exactly one entry per candle, carrying that candle's time. Asking again, calculating again, or reading the values through another getter, before or after, gives the same numbers.",
  ["inputs", "histories", "configurations"], "every series, every indicator, every order of calling its methods",
  "Tests read each indicator once over one data file and assert nothing about the values.",
  ALLI, [("lazy calculation and getters", "every indicator's Calculation/GetData/GetValue*")], GEN + "Up to 4 candles (thorough 6); two indicators over two series read in turn, up to 3 candles (thorough 4)."+LONG)

P("C19", "Indicators never modify the candles they are given",
  "Constructing, calculating, reading and analysing an indicator leaves every candle and the item as they were, so that two indicators over one item do not disturb each other.",
  ["inputs", "histories"], "every series and every indicator", "No test reads the input back.",
  ALLI + [TA], [("shared candle pointers and slices", "utils/ta/ta.go, utils/klines")], GEN + "Up to 3 candles (thorough 6); 4 and 40 candles with falling, shuffled or equal times.")

P("C20", "What is reported for a candle does not depend on later candles",
  "An entry or signal for a candle is the same whether or not later candles are already known: no indicator looks into the future. SmartMoneyConcepts, which by design marks structures back to their origin, and Camarilla's day-based signals are exempt.",
  ["inputs", "histories"], "every series, every prefix of it", "Tests run one fixed series and never a prefix of it.",
  ALLI, [("every indicator", "Calculation/AnalysisSide")], GEN + "Up to 4 candles and their prefixes (thorough 6)."+LONG)

P("C21", "Every strategy gives one Buy, Sell or Hold per candle, consistently",
  "Analysis yields exactly one of Buy, Sell and Hold per candle, under the strategy's name, Hold on the first candle (nothing to compare with), the same on every call and whether or not data was read before; analysing never changes the data.",
  ["inputs", "histories"], "every series and every strategy", "Tests only print the signals.",
  ALLI + ["utils/side.go"], [("AnalysisSide", "every indicator"), ("lazy calculation", "every indicator")], GEN + "Up to 3 candles (thorough 6)."+LONG)

P("C46", "No series is too short for any indicator",
  "Every method of every indicator returns normally on a series of any length, the empty one included, and yields one entry per candle.",
  ["inputs", "configurations"], "every series shorter than, equal to and longer than the periods",
  "Tests use one series longer than every period.", ALLI + [TA], [("warm-up loops and window indexing", "every indicator")], GEN + "0 to 3 candles (thorough 6), and every length up to 67 (thorough 99) of fixed candles but for the last close and volume; all index and nil checks are obligations.")

# ---- each indicator against its published definition ----
WHY = "The tests print the first values for one data file and assert nothing; a wrong coefficient, window, shift or comparison is invisible to them."
DEF = REAL + "Small periods over %s arbitrary candles, and the default parameters over a series long enough to leave the warm-up, in which the stated candles are arbitrary and the others fixed."
OVER = "every series of candles and every period"
FM = ["inputs", "configurations"]

def ind(id, title, text, files, bounds="4-6"):
    P(id, title, text, FM, OVER, WHY, files, [("Calculation and AnalysisSide", f) for f in files], DEF % bounds)

ind("C22", "MACD, APO, PPO, volume and Chaikin oscillators match their formulas",
    "MACD is the fast minus the slow exponential average, its signal the average of that and its histogram twice their distance; APO, PPO, the volume oscillator and the Chaikin oscillator are the stated differences of averages of close, volume or accumulation/distribution. Buy and Sell are given exactly on the stated crossings.",
    ["trend/Macd.go", "oscillator/AbsolutePriceOscillator.go", "oscillator/PercentagePriceOscillator.go", "oscillator/VolumeOscillator.go", "oscillator/ChaikinOscillator.go"])
ind("C23", "RSI is the share of gains in the averaged moves",
    "RSI is 100*average gain/(average gain + average loss) with the running averages of the period, 100 when nothing was lost and 0 before the first full period; Buy and Sell follow its stated bounds.",
    ["trend/Rsi.go"])
ind("C24", "KDJ follows its smoothed stochastic recurrence",
    "RSV places the close in the window's high-low range, K and D smooth it by thirds from a start of 50, J = 3K - 2D; the signals follow the stated crossings.",
    ["trend/Kdj.go"])
ind("C25", "The stochastic family places the close (or RSI) in its window's range",
    "Stochastic oscillator, Williams %R, stochastic RSI and stochastic heat place each close, or RSI, between the lowest and highest of its window, in percent, with the stated smoothing; a flat window gives the stated neutral value and the signals follow the stated levels.",
    ["oscillator/StochasticOscillator.go", "oscillator/WilliamsR.go", "trend/StochRsi.go", "trend/StochasticHeat.go"])
ind("C26", "Commodity channel indices measure deviation from the mean",
    "CCI is the typical price's distance from its average over 0.015 times the mean absolute deviation; the AiCoin variant uses its own factor; a flat window gives 0; signals follow the stated levels.",
    ["trend/Cci.go", "trend/AiCoinCCI.go"])
ind("C27", "ADX and Vortex follow directional movement",
    "Directional movement, true range, DI+ and DI- and the averaged index follow Wilder's definitions; Vortex sums the stated movements over its window; signals follow which direction leads.",
    ["trend/AverageDirectionalIndex.go", "trend/Vortex.go"])
ind("C28", "Moving-average indicators are the averages of the close they name",
    "SMA, EMA, DEMA, RMA, MA and Vegas tunnels are the named averages of the close at the given periods, with signals on the stated crossings.",
    ["trend/Sma.go", "trend/Ema.go", "trend/Dema.go", "trend/Rma.go", "trend/Ma.go", "trend/EMAVegas.go"])
ind("C29", "Bollinger bands are the stated deviations around the average",
    "The middle band is the simple average of the closes, the outer bands lie PeriodK standard deviations around it, and signals are given exactly when the close crosses a band.",
    ["channel/Boll.go"])
ind("C30", "Donchian, Keltner and Ulcer follow their windows",
    "The Donchian channel is the highest high, lowest low and their middle; Keltner is an exponential average plus and minus twice the average true range; the Ulcer index is the root of the average squared drawdown from the window's highest close.",
    ["channel/DonchianChannel.go", "channel/KeltnerChannel.go", "channel/UlcerIndex.go"])
ind("C31", "The Ichimoku lines are the middles of their windows' ranges",
    "Conversion, base and leading lines are the middles of the highest high and lowest low of their windows, the lagging line is the shifted close, and signals are given when the close crosses the whole cloud.",
    ["oscillator/IchimokuCloud.go"])
ind("C32", "Awesome and projection oscillators follow their formulas",
    "The awesome oscillator is the 5-candle minus the 34-candle simple average of the median price, with signals on zero crossings; the projection oscillator places the close between the highs and lows projected along their windows' regression slopes, 0 while the window still holds the first candle, and is averaged exponentially.",
    ["oscillator/AwesomeOscillator.go", "oscillator/ProjectionOscillator.go"])

ind("C33", "Camarilla levels follow each candle's range, signals its day's level",
    "The six resistance and six support levels, the pivot and the average follow the published formulas from each candle's high, low and close; a signal is given exactly where a candle's body crosses the fourth resistance of its own day (the latest known day when its own is missing) against the average.",
    ["oscillator/Camarilla.go"])
ind("C34", "Cumulative volume indices add up exactly what each candle moved",
    "OBV adds the volume of rising and subtracts that of falling closes; accumulation/distribution weights volume by the close's place in its candle (a candle without range adds nothing); the negative volume index starts at 1000 and follows the relative change of the close only while volume does not rise; the volume price trend adds volume times the relative change over its period.",
    ["volume/Obv.go", "volume/AccumulationDistribution.go", "volume/NegativeVolumeIndex.go", "volume/VolumePriceTrend.go"])
ind("C35", "Windowed volume indicators weigh price by volume as defined",
    "VWMA is the volume-weighted average close of the window, CMF its money-flow volume over its volume, ease of movement the averaged distance moved per volume and range, the force index the exponential average of volume times change, and MFI the share of rising money flow in percent, with signals on its stated levels; an empty denominator gives 0.",
    ["volume/Vwma.go", "volume/ChaikinMoneyFlow.go", "volume/EaseOfMovement.go", "volume/ForceIndex.go", "volume/MoneyFlowIndex.go"])
ind("C36", "SuperTrend's bands ratchet and its trend turns on their crossing",
    "The bands lie the stated number of average true ranges around the median price, the lower only rises while the previous close is above it and the upper only falls while it is below; the trend turns exactly when a close leaves the previous band, and Buy and Sell are given exactly there.",
    ["trend/SuperTrend.go"], "6-8")
ind("C37", "The pivot-point SuperTrend follows its averaged pivots",
    "The centre moves a third of the way to each confirmed pivot, the bands lie around it, ratchet like SuperTrend's and turn the trend when a close leaves the previous band; exactly one of the four outputs carries the stop of the current trend and signals mark its start.",
    ["trend/PivotPointSuperTrend.go"], "5-7")
ind("C38", "UT Bot's stop trails the close and signals where it is crossed",
    "The stop follows the close at the stated number of average true ranges, only in the trend's direction until the close crosses it, then it jumps to the other side; Buy and Sell are given exactly at the crossings.",
    ["trend/UTBot.go"], "7-9")
ind("C39", "Breakout probabilities count what followed candles of the same colour",
    "For each of the requested number of levels, the probability shown is the share of candles after one of the same colour that went beyond the previous high (low) by that many steps, as of the last hit; the back-test counts how often the likelier side was indeed reached.",
    ["trend/BreakoutProbability.go"], "4-5")
ind("C40", "Reversal and moving-average order signals fire exactly once per turn",
    "A reversal signal is given on the ninth consecutive close below (above) the close four candles earlier, when one of the last two extremes is perfected; TraderXO signals exactly when the order of its averages changes.",
    ["trend/ReversalSignals.go", "trend/TraderXO.go"], "15 and 6")
P("C41", "Smart-money structures, order blocks and trailing extremes are consistent",
  "A swing high or low is a candle not reached by the following ones, alternating; the first close beyond it is marked from the swing to the break, as break of structure in the trend and change of character against it. An order block is the extreme candle, of ordinary range, of the broken structure; it is dropped when the close leaves it through its far side or when too many newer ones exist. Equal highs and lows and the strong and weak trailing extremes follow their definitions.",
  FM, "every series and every swing length", WHY, ["trend/SmartMoneyConcepts.go", "trend/SmartMoneyConcepts_type.go"],
  [("Calculation", "trend/SmartMoneyConcepts.go"), ("order block list", "trend/SmartMoneyConcepts_type.go")],
  REAL + "Every path of the calculation with one arbitrary candle, or one arbitrary price of one of the last candles, of a fixed series of 40 candles (thorough 80), its mirror image, and 150-236 candles where the 200-candle range matters, and a zigzag of 213 candles at usual, tiny (1/1024) and huge (2^30) prices whose broken swing is its own extreme candle; swing lengths 2-7 and the default 50.")
ind("C42", "Linear regression candles end each window's best-fitting line",
    "Each price of a regression candle is the end of the least-squares line through the last prices of its kind, and the signal is the simple or exponential average of the regression closes, as chosen.",
    ["trend/LinearRegressionCandles.go"], "5-6")
ind("C43", "ATR averages the true range and the chandelier exit hangs from it",
    "The true range covers the candle and the gap to the previous close, ATR is its running average, and the chandelier exits lie three ATR below the highest high and above the lowest low of the window.",
    ["trend/Atr.go"], "5-6")
P("C44", "Running strategies together reports each one's own answer in order",
  "Running several strategies asks each exactly once and returns their names and signals unchanged and in order; running them together changes no answer; the three sides are distinct and named BUY, SELL and HOLD.",
  ["inputs", "configurations"], "every list of strategies and every answer they give", "No test runs more than printing.",
  ["utils/interface.go", "utils/Side.go"], [("RunStrategies", "utils/interface.go"), ("Side.String", "utils/Side.go")],
  "Up to 4 strategies with arbitrary answers, of different or equal names, five real ones over up to 3 candles (thorough 5), every 32-bit side value.")
P("C47", "Indicators stay within their natural bounds",
  "Percentages stay between 0 and 100 (Williams %R between -100 and 0, CMF between -1 and 1), upper bands above middles and middles above lower bands, averages between the extremes of what they average, ranges and directional indices are not negative, and trailing stops never move away from a price that holds.",
  FM, "every series of well-formed candles", "No test looks at the values.", ALLI, [("every bounded indicator", "Calculation")],
  REAL + "Up to 4-5 candles with periods 1-3 (thorough 5-7).")
P("C48", "Candles that left the window leave no trace, flat markets are exact",
  "An indicator over a window depends on the candles in the window alone: whatever prices and volumes came before, huge ones included, its value is the same as if the series began with the window, but for rounding, and never NaN or garbage from rounding leftovers. In a market that stands still averages and bands equal the price exactly and deviations, CCI, slopes, VI, EMV, CMF and the Awesome oscillator are exactly 0.",
  FM, "every past of prices up to 1e12 and volumes up to 1e15, every flat price and volume, bit for bit", "Tests use one benign price series; rounding leftovers need a large value that leaves the window.",
  ["utils/ta/ta.go", "utils/regression.go", "channel/Boll.go", "channel/UlcerIndex.go", "trend/Vortex.go", "trend/Cci.go", "volume/Vwma.go", "volume/MoneyFlowIndex.go"],
  [("Sum, Sma, MA, Wma, Variance, Dev, LinearReg", "utils/ta/ta.go"), ("MovingLeastSquare", "utils/regression.go"), ("dma", "channel/Boll.go")],
  "IEEE-754 doubles, bit-precise (bit-blasted, with interval simplification): 1-2 arbitrary past candles (thorough up to 3) before three given tails (quiet, moving, thin), periods 1-3 (thorough 4), compared within 1e-5 with the tail alone; flat series of p+2 candles at an arbitrary price in [1e-6, 1e12] and volume in [0, 1e15]. Exponential averages remember for ever and are outside.")
P("C49", "The unit of prices and volumes changes no signal and no ratio",
  "Stating all prices, or all volumes, of a series in another unit (satoshi for bitcoin, lots for shares) leaves every signal, percentage and index as it is, and multiplies prices, ranges, deviations and volumes by the unit alone: there is no price so low or so high that an indicator treats it differently.",
  FM, "every well-formed series, restated in a unit 2^30 times smaller or 2^40 times larger, volumes 2^20", "Tests use one asset at one price level.",
  ALLI + [TA], [("StdDev, LinearReg, Wma, Dev", "utils/ta/ta.go"), ("every indicator", "Calculation/AnalysisSide")],
  REAL + "All 47 indicators, default and small periods, up to 4 candles (thorough 5); powers of two, so that nothing is rounded."+LONG+" The deviation helpers of ta up to 4 values (thorough 6), periods 1-3.")
P("C50", "Indicators go by prices and volumes, not by clock or labels",
  "Two series of the same prices and volumes give the same values, signals and strategy names whatever the candles' times and the gaps between them, their amounts, change percentages and counts, and whatever the item's symbol, code, interval and exchange. Camarilla's signals go by the calendar day; there, days may be moved as a whole.",
  ["inputs", "configurations"], "every well-formed series and every increasing sequence of times", "Tests use one data file of regular candles.",
  ALLI, [("every indicator", "Calculation/AnalysisSide")],
  REAL + "All 47 indicators, default and small periods, up to 4 candles (thorough 5) with gaps of 1 s to 34 years."+LONG)
