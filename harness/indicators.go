// Code generated by tools/gen_ind.py; DO NOT EDIT.
package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

// row is one entry of GetData.
type row struct {
	at   time.Time
	vals []float64
	side int
}

// handle drives one indicator through its public methods.
type handle struct {
	name string
	calc func()
	rows func() []row
	side func() utils.SideData
	gets []getter
}

// getter is a GetValues-like method and the columns of GetData it repeats.
type getter struct {
	cols []int
	get  func() [][]float64
}

func mkBoll(it *klines.Item, cfg int) *handle {
	x := channel.NewDefaultBoll(it)
	if cfg == 1 {
		x = channel.NewBoll(it, 2, 2)
	}
	if cfg == 2 {
		x = channel.NewBoll(it, 9, 3)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Upper, v.Middle, v.Lower, v.MD}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkDonchianChannel(it *klines.Item, cfg int) *handle {
	x := channel.NewDefaultDonchianChannel(it)
	if cfg == 1 {
		x = channel.NewDonchianChannel(it, 2)
	}
	if cfg == 2 {
		x = channel.NewDonchianChannel(it, 7)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Upper, v.Middle, v.Lower}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkKeltnerChannel(it *klines.Item, cfg int) *handle {
	x := channel.NewDefaultKeltnerChannel(it)
	if cfg == 1 {
		x = channel.NewKeltnerChannel(it, 2)
	}
	if cfg == 2 {
		x = channel.NewKeltnerChannel(it, 11)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Upper, v.Middle, v.Lower}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkUlcerIndex(it *klines.Item, cfg int) *handle {
	x := channel.NewDefaultUlcerIndex(it)
	if cfg == 1 {
		x = channel.NewUlcerIndex(it, 2)
	}
	if cfg == 2 {
		x = channel.NewUlcerIndex(it, 6)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkAbsolutePriceOscillator(it *klines.Item, cfg int) *handle {
	x := oscillator.NewAbsolutePriceOscillator(it)
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkAwesomeOscillator(it *klines.Item, cfg int) *handle {
	x := oscillator.NewAwesomeOscillator(it)
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkCamarilla(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultCamarilla(it)
	if cfg == 1 {
		x = oscillator.NewCamarilla(it, 2)
	}
	if cfg == 2 {
		x = oscillator.NewCamarilla(it, 13)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.EMA, v.Pivot, v.High1, v.High2, v.High3, v.High4, v.High5, v.High6, v.Low1, v.Low2, v.Low3, v.Low4, v.Low5, v.Low6}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide(it) }
	return h
}

func mkChaikinOscillator(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultChaikinOscillator(it)
	if cfg == 1 {
		x = oscillator.NewChaikinOscillator(it, 2, 3)
	}
	if cfg == 2 {
		x = oscillator.NewChaikinOscillator(it, 5, 17)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value, v.AD}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkIchimokuCloud(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultIchimokuCloud(it)
	if cfg == 1 {
		x = oscillator.NewIchimokuCloud(it, 2, 3, 1)
	}
	if cfg == 2 {
		x = oscillator.NewIchimokuCloud(it, 5, 9, 20)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.ConversionLine, v.BaseLine, v.LeadingSpanA, v.LeadingSpanB, v.LaggingLine}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkPercentagePriceOscillator(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultPercentagePriceOscillator(it)
	if cfg == 1 {
		x = oscillator.NewPercentagePriceOscillator(it, 2, 3, 2)
	}
	if cfg == 2 {
		x = oscillator.NewPercentagePriceOscillator(it, 5, 11, 7)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.PPO, v.Signal, v.Histogram}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkProjectionOscillator(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultProjectionOscillator(it)
	if cfg == 1 {
		x = oscillator.NewProjectionOscillator(it, 2, 2)
	}
	if cfg == 2 {
		x = oscillator.NewProjectionOscillator(it, 6, 4)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Po, v.Spo}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkStochasticOscillator(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultStochasticOscillator(it)
	if cfg == 1 {
		x = oscillator.NewStochasticOscillator(it, 2)
	}
	if cfg == 2 {
		x = oscillator.NewStochasticOscillator(it, 5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.K, v.D}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{0, 1}, func() [][]float64 {
		a, b := x.GetValues()
		return [][]float64{a, b}
	}})
	return h
}

func mkVolumeOscillator(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultVolumeOscillator(it)
	if cfg == 1 {
		x = oscillator.NewVolumeOscillator(it, 2, 3)
	}
	if cfg == 2 {
		x = oscillator.NewVolumeOscillator(it, 9, 16)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValues()
		return [][]float64{a}
	}})
	return h
}

func mkWilliamsR(it *klines.Item, cfg int) *handle {
	x := oscillator.NewDefaultWilliamsR(it)
	if cfg == 1 {
		x = oscillator.NewWilliamsR(it, 2)
	}
	if cfg == 2 {
		x = oscillator.NewWilliamsR(it, 9)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkAiCoinCCI(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultAiCoinCCI(it)
	if cfg == 1 {
		x = trend.NewAiCoinCCI(it, 2)
	}
	if cfg == 2 {
		x = trend.NewAiCoinCCI(it, 5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValue()
		return [][]float64{a}
	}})
	return h
}

func mkAtr(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultAtr(it)
	if cfg == 1 {
		x = trend.NewAtr(it, 2)
	}
	if cfg == 2 {
		x = trend.NewAtr(it, 5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.TR, v.Atr}})
		}
		return r
	}
	h.gets = append(h.gets, getter{[]int{0, 1}, func() [][]float64 {
		a, b := x.GetValues()
		return [][]float64{a, b}
	}})
	return h
}

func mkAverageDirectionalIndex(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultAverageDirectionalIndex(it)
	if cfg == 1 {
		x = trend.NewAverageDirectionalIndex(it, 2, 2)
	}
	if cfg == 2 {
		x = trend.NewAverageDirectionalIndex(it, 5, 7)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.DIPlus, v.DIMins, v.ADX}})
		}
		return r
	}
	return h
}

func mkBreakoutProbability(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultBreakoutProbability(it)
	if cfg == 1 {
		x = trend.NewBreakoutProbability(it, 1, 2)
	}
	if cfg == 2 {
		x = trend.NewBreakoutProbability(it, 0.3, 3)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			vals := []float64{v.Win, v.Loss}
			for q := 0; q < len(v.List); q++ {
				up := 0.0
				if v.List[q].Up {
					up = 1
				}
				vals = append(vals, v.List[q].Price, v.List[q].Per, up)
			}
			r = append(r, row{at: v.Time, vals: vals})
		}
		return r
	}
	return h
}

func mkCci(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultCci(it)
	if cfg == 1 {
		x = trend.NewCci(it, 2, 2)
	}
	if cfg == 2 {
		x = trend.NewCci(it, 7, 5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValue()
		return [][]float64{a}
	}})
	return h
}

func mkDema(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultDema(it)
	if cfg == 1 {
		x = trend.NewDema(it, 2)
	}
	if cfg == 2 {
		x = trend.NewDema(it, 8)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValues()
		return [][]float64{a}
	}})
	return h
}

func mkEMAVegas(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultEMAVegas(it)
	if cfg == 1 {
		x = trend.NewEMAVegas(it, 1, 2, 2, 3, 3)
	}
	if cfg == 2 {
		x = trend.NewEMAVegas(it, 2, 3, 5, 7, 11)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value, v.Short1Value, v.Short2Value, v.Long1Value, v.Long2Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkEma(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultEma(it)
	if cfg == 1 {
		x = trend.NewEma(it, 2)
	}
	if cfg == 2 {
		x = trend.NewEma(it, 17)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValues()
		return [][]float64{a}
	}})
	return h
}

func mkKdj(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultKdj(it)
	if cfg == 1 {
		x = trend.NewKdj(it, 2)
	}
	if cfg == 2 {
		x = trend.NewKdj(it, 5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.RSV, v.K, v.D, v.J}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{1}, func() [][]float64 {
		a := x.GetListK()
		return [][]float64{a}
	}})
	h.gets = append(h.gets, getter{[]int{2}, func() [][]float64 {
		a := x.GetListD()
		return [][]float64{a}
	}})
	h.gets = append(h.gets, getter{[]int{3}, func() [][]float64 {
		a := x.GetListJ()
		return [][]float64{a}
	}})
	return h
}

func mkLinearRegressionCandles(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultLinearRegressionCandles(it)
	if cfg == 1 {
		x = trend.NewLinearRegressionCandles(it, 2, 2, true)
	}
	if cfg == 2 {
		x = trend.NewLinearRegressionCandles(it, 13, 5, false)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Open, v.Close, v.High, v.Low, v.Signal}})
		}
		return r
	}
	h.gets = append(h.gets, getter{[]int{4}, func() [][]float64 {
		a := x.GetValues()
		return [][]float64{a}
	}})
	return h
}

func mkMa(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultMa(it)
	if cfg == 1 {
		x = trend.NewMa(it, 2)
	}
	if cfg == 2 {
		x = trend.NewMa(it, 17)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkMacd(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultMacd(it)
	if cfg == 1 {
		x = trend.NewMacd(it, 2, 2, 3)
	}
	if cfg == 2 {
		x = trend.NewMacd(it, 5, 7, 13)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.DIF, v.DEA, v.Macd}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkPivotPointSuperTrend(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultPivotPointSuperTrend(it)
	if cfg == 1 {
		x = trend.NewPivotPointSuperTrend(it, 1, 2, 2)
	}
	if cfg == 2 {
		x = trend.NewPivotPointSuperTrend(it, 2, 5, 1.5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.UpTrend, v.UpTrendBegin, v.DownTrend, v.DownTrendBegin}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{0, 2}, func() [][]float64 {
		a, b := x.GetValues()
		return [][]float64{a, b}
	}})
	return h
}

func mkReversalSignals(it *klines.Item, cfg int) *handle {
	x := trend.NewReversalSignals(it)
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, side: int(v.Side)})
		}
		return r
	}
	return h
}

func mkRma(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultRma(it)
	if cfg == 1 {
		x = trend.NewRma(it, 2)
	}
	if cfg == 2 {
		x = trend.NewRma(it, 17)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkRsi(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultRsi(it)
	if cfg == 1 {
		x = trend.NewRsi(it, 2)
	}
	if cfg == 2 {
		x = trend.NewRsi(it, 5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValue()
		return [][]float64{a}
	}})
	return h
}

func mkSma(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultSma(it)
	if cfg == 1 {
		x = trend.NewSma(it, 2)
	}
	if cfg == 2 {
		x = trend.NewSma(it, 17)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValues()
		return [][]float64{a}
	}})
	return h
}

func mkSmartMoneyConcepts(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultSmartMoneyConcepts(it)
	if cfg == 1 {
		x = trend.NewSmartMoneyConcepts(it, 2, 1, 1)
	}
	if cfg == 2 {
		x = trend.NewSmartMoneyConcepts(it, 6, 2, 2)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.HighBOSShort, v.HighCHoCHShort, v.HighBOSLong, v.HighCHoCHLong, v.LowBOSShort, v.LowChoCHShort, v.LowBOSLong, v.LowChoCHLong, v.EQH, v.EQL}})
		}
		return r
	}
	return h
}

func mkStochRsi(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultStochRsi(it)
	if cfg == 1 {
		x = trend.NewStochRsi(it, 2, 2, 2, 2)
	}
	if cfg == 2 {
		x = trend.NewStochRsi(it, 2, 4, 6, 9)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.K, v.D}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkStochasticHeat(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultStochasticHeat(it)
	if cfg == 1 {
		x = trend.NewStochasticHeat(it, 1, 2, 2, 3, types.SMA)
	}
	if cfg == 2 {
		x = trend.NewStochasticHeat(it, 3, 2, 5, 4, types.EMA)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Fast, v.Slow}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkSuperTrend(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultSuperTrend(it)
	if cfg == 1 {
		x = trend.NewSuperTrend(it, 2, 2, false)
	}
	if cfg == 2 {
		x = trend.NewSuperTrend(it, 4, 1, false)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.UpTrend, v.UpTrendBegin, v.DownTrend, v.DownTrendBegin}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{0, 2}, func() [][]float64 {
		a, b := x.GetValues()
		return [][]float64{a, b}
	}})
	return h
}

func mkTraderXO(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultTraderXO(it)
	if cfg == 1 {
		x = trend.NewTraderXO(it, 2, 3)
	}
	if cfg == 2 {
		x = trend.NewTraderXO(it, 5, 14)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Fast, v.Slow}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{0, 1}, func() [][]float64 {
		a, b := x.GetValues()
		return [][]float64{a, b}
	}})
	return h
}

func mkUTBot(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultUTBot(it)
	if cfg == 1 {
		x = trend.NewUTBot(it, 2, 2)
	}
	if cfg == 2 {
		x = trend.NewUTBot(it, 3, 6)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Close, v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	h.gets = append(h.gets, getter{[]int{1}, func() [][]float64 {
		a := x.GetValues()
		return [][]float64{a}
	}})
	return h
}

func mkVortex(it *klines.Item, cfg int) *handle {
	x := trend.NewDefaultVortex(it)
	if cfg == 1 {
		x = trend.NewVortex(it, 2)
	}
	if cfg == 2 {
		x = trend.NewVortex(it, 6)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.PlusVi, v.MinusVi}})
		}
		return r
	}
	return h
}

func mkAccumulationDistribution(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultAccumulationDistribution(it)
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.gets = append(h.gets, getter{[]int{0}, func() [][]float64 {
		a := x.GetValues()
		return [][]float64{a}
	}})
	return h
}

func mkChaikinMoneyFlow(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultChaikinMoneyFlow(it)
	if cfg == 1 {
		x = volume.NewChaikinMoneyFlow(it, 2)
	}
	if cfg == 2 {
		x = volume.NewChaikinMoneyFlow(it, 8)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkEaseOfMovement(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultEaseOfMovement(it)
	if cfg == 1 {
		x = volume.NewEaseOfMovement(it, 2)
	}
	if cfg == 2 {
		x = volume.NewEaseOfMovement(it, 6)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkForceIndex(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultForceIndex(it)
	if cfg == 1 {
		x = volume.NewForceIndex(it, 2)
	}
	if cfg == 2 {
		x = volume.NewForceIndex(it, 5)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkMoneyFlowIndex(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultMoneyFlowIndex(it)
	if cfg == 1 {
		x = volume.NewMoneyFlowIndex(it, 2)
	}
	if cfg == 2 {
		x = volume.NewMoneyFlowIndex(it, 6)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	h.side = func() utils.SideData { return x.AnalysisSide() }
	return h
}

func mkNegativeVolumeIndex(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultNegativeVolumeIndex(it)
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkObv(it *klines.Item, cfg int) *handle {
	x := volume.NewObv(it)
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkVolumePriceTrend(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultVolumePriceTrend(it)
	if cfg == 1 {
		x = volume.NewVolumePriceTrend(it, 2)
	}
	if cfg == 2 {
		x = volume.NewVolumePriceTrend(it, 6)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

func mkVwma(it *klines.Item, cfg int) *handle {
	x := volume.NewDefaultVwma(it)
	if cfg == 1 {
		x = volume.NewVwma(it, 2)
	}
	if cfg == 2 {
		x = volume.NewVwma(it, 9)
	}
	h := &handle{name: x.Name}
	h.calc = func() { x.Calculation() }
	h.rows = func() []row {
		var r []row
		d := x.GetData()
		for i := 0; i < len(d); i++ {
			v := d[i]
			r = append(r, row{at: v.Time, vals: []float64{v.Value}})
		}
		return r
	}
	return h
}

// indicators lists every indicator of the library.
var indicators = []func(*klines.Item, int) *handle{
	mkBoll,
	mkDonchianChannel,
	mkKeltnerChannel,
	mkUlcerIndex,
	mkAbsolutePriceOscillator,
	mkAwesomeOscillator,
	mkCamarilla,
	mkChaikinOscillator,
	mkIchimokuCloud,
	mkPercentagePriceOscillator,
	mkProjectionOscillator,
	mkStochasticOscillator,
	mkVolumeOscillator,
	mkWilliamsR,
	mkAiCoinCCI,
	mkAtr,
	mkAverageDirectionalIndex,
	mkBreakoutProbability,
	mkCci,
	mkDema,
	mkEMAVegas,
	mkEma,
	mkKdj,
	mkLinearRegressionCandles,
	mkMa,
	mkMacd,
	mkPivotPointSuperTrend,
	mkReversalSignals,
	mkRma,
	mkRsi,
	mkSma,
	mkSmartMoneyConcepts,
	mkStochRsi,
	mkStochasticHeat,
	mkSuperTrend,
	mkTraderXO,
	mkUTBot,
	mkVortex,
	mkAccumulationDistribution,
	mkChaikinMoneyFlow,
	mkEaseOfMovement,
	mkForceIndex,
	mkMoneyFlowIndex,
	mkNegativeVolumeIndex,
	mkObv,
	mkVolumePriceTrend,
	mkVwma,
}

// hasCfg tells whether an indicator's periods can be chosen.
var hasCfg = []bool{true, true, true, true, false, false, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, false, true, true, true, true, true, true, true, true, true, true, false, true, true, true, true, false, false, true, true}

const ixBoll = 0
const ixDonchianChannel = 1
const ixKeltnerChannel = 2
const ixUlcerIndex = 3
const ixAbsolutePriceOscillator = 4
const ixAwesomeOscillator = 5
const ixCamarilla = 6
const ixChaikinOscillator = 7
const ixIchimokuCloud = 8
const ixPercentagePriceOscillator = 9
const ixProjectionOscillator = 10
const ixStochasticOscillator = 11
const ixVolumeOscillator = 12
const ixWilliamsR = 13
const ixAiCoinCCI = 14
const ixAtr = 15
const ixAverageDirectionalIndex = 16
const ixBreakoutProbability = 17
const ixCci = 18
const ixDema = 19
const ixEMAVegas = 20
const ixEma = 21
const ixKdj = 22
const ixLinearRegressionCandles = 23
const ixMa = 24
const ixMacd = 25
const ixPivotPointSuperTrend = 26
const ixReversalSignals = 27
const ixRma = 28
const ixRsi = 29
const ixSma = 30
const ixSmartMoneyConcepts = 31
const ixStochRsi = 32
const ixStochasticHeat = 33
const ixSuperTrend = 34
const ixTraderXO = 35
const ixUTBot = 36
const ixVortex = 37
const ixAccumulationDistribution = 38
const ixChaikinMoneyFlow = 39
const ixEaseOfMovement = 40
const ixForceIndex = 41
const ixMoneyFlowIndex = 42
const ixNegativeVolumeIndex = 43
const ixObv = 44
const ixVolumePriceTrend = 45
const ixVwma = 46
