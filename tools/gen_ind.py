#!/usr/bin/env python3
"""Writes harness/indicators.go: one adapter per indicator of the public API."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name, package, default constructor, small-period constructor, value fields, AnalysisSide?, getters: (call, fields)
T = [
 ("Boll","channel","NewDefaultBoll(it)","NewBoll(it, 2, 2)","Upper Middle Lower MD",1,[]),
 ("DonchianChannel","channel","NewDefaultDonchianChannel(it)","NewDonchianChannel(it, 2)","Upper Middle Lower",1,[]),
 ("KeltnerChannel","channel","NewDefaultKeltnerChannel(it)","NewKeltnerChannel(it, 2)","Upper Middle Lower",1,[]),
 ("UlcerIndex","channel","NewDefaultUlcerIndex(it)","NewUlcerIndex(it, 2)","Value",0,[]),
 ("AbsolutePriceOscillator","oscillator","NewAbsolutePriceOscillator(it)",None,"Value",1,[]),
 ("AwesomeOscillator","oscillator","NewAwesomeOscillator(it)",None,"Value",1,[]),
 ("Camarilla","oscillator","NewDefaultCamarilla(it)","NewCamarilla(it, 2)","EMA Pivot High1 High2 High3 High4 High5 High6 Low1 Low2 Low3 Low4 Low5 Low6","it",[]),
 ("ChaikinOscillator","oscillator","NewDefaultChaikinOscillator(it)","NewChaikinOscillator(it, 2, 3)","Value AD",1,[]),
 ("IchimokuCloud","oscillator","NewDefaultIchimokuCloud(it)","NewIchimokuCloud(it, 2, 3, 1)","ConversionLine BaseLine LeadingSpanA LeadingSpanB LaggingLine",1,[]),
 ("PercentagePriceOscillator","oscillator","NewDefaultPercentagePriceOscillator(it)","NewPercentagePriceOscillator(it, 2, 3, 2)","PPO Signal Histogram",1,[]),
 ("ProjectionOscillator","oscillator","NewDefaultProjectionOscillator(it)","NewProjectionOscillator(it, 2, 2)","Po Spo",1,[]),
 ("StochasticOscillator","oscillator","NewDefaultStochasticOscillator(it)","NewStochasticOscillator(it, 2)","K D",1,[("GetValues","K D")]),
 ("VolumeOscillator","oscillator","NewDefaultVolumeOscillator(it)","NewVolumeOscillator(it, 2, 3)","Value",0,[("GetValues","Value")]),
 ("WilliamsR","oscillator","NewDefaultWilliamsR(it)","NewWilliamsR(it, 2)","Value",1,[]),
 ("AiCoinCCI","trend","NewDefaultAiCoinCCI(it)","NewAiCoinCCI(it, 2)","Value",1,[("GetValue","Value")]),
 ("Atr","trend","NewDefaultAtr(it)","NewAtr(it, 2)","TR Atr",0,[("GetValues","TR Atr")]),
 ("AverageDirectionalIndex","trend","NewDefaultAverageDirectionalIndex(it)","NewAverageDirectionalIndex(it, 2, 2)","DIPlus DIMins ADX",0,[]),
 ("BreakoutProbability","trend","NewDefaultBreakoutProbability(it)","NewBreakoutProbability(it, 1, 2)","Win Loss",0,[]),
 ("Cci","trend","NewDefaultCci(it)","NewCci(it, 2, 2)","Value",1,[("GetValue","Value")]),
 ("Dema","trend","NewDefaultDema(it)","NewDema(it, 2)","Value",0,[("GetValues","Value")]),
 ("EMAVegas","trend","NewDefaultEMAVegas(it)","NewEMAVegas(it, 1, 2, 2, 3, 3)","Value Short1Value Short2Value Long1Value Long2Value",1,[]),
 ("Ema","trend","NewDefaultEma(it)","NewEma(it, 2)","Value",0,[("GetValues","Value")]),
 ("Kdj","trend","NewDefaultKdj(it)","NewKdj(it, 2)","RSV K D J",1,[("GetListK","K"),("GetListD","D"),("GetListJ","J")]),
 ("LinearRegressionCandles","trend","NewDefaultLinearRegressionCandles(it)","NewLinearRegressionCandles(it, 2, 2, true)","Open Close High Low Signal",0,[("GetValues","Signal")]),
 ("Ma","trend","NewDefaultMa(it)","NewMa(it, 2)","Value",0,[]),
 ("Macd","trend","NewDefaultMacd(it)","NewMacd(it, 2, 2, 3)","DIF DEA Macd",1,[]),
 ("PivotPointSuperTrend","trend","NewDefaultPivotPointSuperTrend(it)","NewPivotPointSuperTrend(it, 1, 2, 2)","UpTrend UpTrendBegin DownTrend DownTrendBegin",1,[("GetValues","UpTrend DownTrend")]),
 ("ReversalSignals","trend","NewReversalSignals(it)",None,"",0,[]),
 ("Rma","trend","NewDefaultRma(it)","NewRma(it, 2)","Value",0,[]),
 ("Rsi","trend","NewDefaultRsi(it)","NewRsi(it, 2)","Value",1,[("GetValue","Value")]),
 ("Sma","trend","NewDefaultSma(it)","NewSma(it, 2)","Value",0,[("GetValues","Value")]),
 ("SmartMoneyConcepts","trend","NewDefaultSmartMoneyConcepts(it)","NewSmartMoneyConcepts(it, 2, 1, 1)","HighBOSShort HighCHoCHShort HighBOSLong HighCHoCHLong LowBOSShort LowChoCHShort LowBOSLong LowChoCHLong EQH EQL",0,[]),
 ("StochRsi","trend","NewDefaultStochRsi(it)","NewStochRsi(it, 2, 2, 2, 2)","K D",1,[]),
 ("StochasticHeat","trend","NewDefaultStochasticHeat(it)","NewStochasticHeat(it, 1, 2, 2, 3, types.SMA)","Fast Slow",1,[]),
 ("SuperTrend","trend","NewDefaultSuperTrend(it)","NewSuperTrend(it, 2, 2, false)","UpTrend UpTrendBegin DownTrend DownTrendBegin",1,[("GetValues","UpTrend DownTrend")]),
 ("TraderXO","trend","NewDefaultTraderXO(it)","NewTraderXO(it, 2, 3)","Fast Slow",1,[("GetValues","Fast Slow")]),
 ("UTBot","trend","NewDefaultUTBot(it)","NewUTBot(it, 2, 2)","Close Value",1,[("GetValues","Value")]),
 ("Vortex","trend","NewDefaultVortex(it)","NewVortex(it, 2)","PlusVi MinusVi",0,[]),
 ("AccumulationDistribution","volume","NewDefaultAccumulationDistribution(it)",None,"Value",0,[("GetValues","Value")]),
 ("ChaikinMoneyFlow","volume","NewDefaultChaikinMoneyFlow(it)","NewChaikinMoneyFlow(it, 2)","Value",0,[]),
 ("EaseOfMovement","volume","NewDefaultEaseOfMovement(it)","NewEaseOfMovement(it, 2)","Value",0,[]),
 ("ForceIndex","volume","NewDefaultForceIndex(it)","NewForceIndex(it, 2)","Value",0,[]),
 ("MoneyFlowIndex","volume","NewDefaultMoneyFlowIndex(it)","NewMoneyFlowIndex(it, 2)","Value",1,[]),
 ("NegativeVolumeIndex","volume","NewDefaultNegativeVolumeIndex(it)",None,"Value",0,[]),
 ("Obv","volume","NewObv(it)",None,"Value",0,[]),
 ("VolumePriceTrend","volume","NewDefaultVolumePriceTrend(it)","NewVolumePriceTrend(it, 2)","Value",0,[]),
 ("Vwma","volume","NewDefaultVwma(it)","NewVwma(it, 2)","Value",0,[]),
]
o = ['''// Code generated by tools/gen_ind.py; DO NOT EDIT.
package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

// row is one entry of GetData.
type row struct {
	at   time.Time
	vals []float64
	side int
}

// handle drives one indicator through its public methods.
type handle struct {
	name string
	calc func()
	rows func() []row
	side func() utils.SideData
	gets []getter
}

// getter is a GetValues-like method and the columns of GetData it repeats.
type getter struct {
	cols []int
	get  func() [][]float64
}
''']
for name, pkg, dflt, small, fields, side, gets in T:
    fs = fields.split()
    o.append(f"func mk{name}(it *klines.Item, cfg int) *handle {{")
    o.append(f"\tx := {pkg}.{dflt}")
    if small:
        o.append(f"\tif cfg == 1 {{\n\t\tx = {pkg}.{small}\n\t}}")
    o.append(f"\th := &handle{{name: x.Name}}")
    o.append(f"\th.calc = func() {{ x.Calculation() }}")
    vals = ", ".join("v."+f for f in fs)
    o.append("\th.rows = func() []row {\n\t\tvar r []row\n\t\td := x.GetData()\n\t\tfor i := 0; i < len(d); i++ {\n\t\t\tv := d[i]")
    if name == "BreakoutProbability":
        o.append("\t\t\tvals := []float64{%s}\n\t\t\tfor q := 0; q < len(v.List); q++ {\n\t\t\t\tup := 0.0\n\t\t\t\tif v.List[q].Up {\n\t\t\t\t\tup = 1\n\t\t\t\t}\n\t\t\t\tvals = append(vals, v.List[q].Price, v.List[q].Per, up)\n\t\t\t}\n\t\t\tr = append(r, row{at: v.Time, vals: vals})" % vals)
    elif name == "ReversalSignals":
        o.append("\t\t\tr = append(r, row{at: v.Time, side: int(v.Side)})")
    else:
        o.append("\t\t\tr = append(r, row{at: v.Time, vals: []float64{%s}})" % vals)
    o.append("\t\t}\n\t\treturn r\n\t}")
    if side == 1: o.append("\th.side = func() utils.SideData { return x.AnalysisSide() }")
    if side == "it": o.append("\th.side = func() utils.SideData { return x.AnalysisSide(it) }")
    for call, cols in gets:
        cs = cols.split()
        lhs = ", ".join("abcdef"[i] for i in range(len(cs)))
        idx = ", ".join(str(fs.index(c)) for c in cs)
        o.append("\th.gets = append(h.gets, getter{[]int{%s}, func() [][]float64 {\n\t\t%s := x.%s()\n\t\treturn [][]float64{%s}\n\t}})" % (idx, lhs, call, lhs))
    o.append("\treturn h\n}\n")
o.append("// indicators lists every indicator of the library.\nvar indicators = []func(*klines.Item, int) *handle{")
for t in T: o.append(f"\tmk{t[0]},")
o.append("}\n")
o.append("// hasCfg tells whether an indicator's periods can be chosen.\nvar hasCfg = []bool{"+", ".join("true" if t[3] else "false" for t in T)+"}\n")
for i, t in enumerate(T): o.append(f"const ix{t[0]} = {i}")
open(os.path.join(ROOT, "harness", "indicators.go"), "w").write("\n".join(o)+"\n")
