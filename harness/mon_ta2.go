package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

type arrFn struct {
	name string
	f    func(o, h, l, c []float64, p int) [][]float64
}

func o1(v []float64) [][]float64 { return [][]float64{v} }

// moving and element-wise functions over whole columns; each result is as long as its input.
var arrFns = []arrFn{
	{"Sma", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Sma(p, c)) }},
	{"Ema", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Ema(p, c)) }},
	{"Dema", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Dema(p, c)) }},
	{"Rma", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Rma(p, c)) }},
	{"Wma", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Wma(p, c)) }},
	{"MA", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.MA(c, p)) }},
	{"Max", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Max(p, h)) }},
	{"Min", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Min(p, l)) }},
	{"Sum", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Sum(p, c)) }},
	{"Variance", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Variance(c, p)) }},
	{"StdDev", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.StdDev(c, p, 2)) }},
	{"Dev", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Dev(c, p)) }},
	{"MeanDeviation", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.MeanDeviation(c, p, o)) }},
	{"LinearReg", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.LinearReg(c, p)) }},
	{"LinearRegAngle", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.LinearRegAngle(c, p)) }},
	{"LinearRegIntercept", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.LinearRegIntercept(c, p)) }},
	{"LinearRegSlope", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.LinearRegSlope(c, p)) }},
	{"Atr", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Atr(h, l, c, p)) }},
	{"Natr", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Natr(h, l, c, p)) }},
	{"TRange", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.TRange(h, l, c)) }},
	{"TrueRange", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.TrueRange(h, l, c)) }},
	{"CCI", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.CCI(c, p, p)) }},
	{"AiCoinCCI", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.AiCoinCCI(c, p, 0.015)) }},
	{"Stochastic", func(o, h, l, c []float64, p int) [][]float64 {
		k, d := ta.Stochastic(c, h, l, p)
		return [][]float64{k, d}
	}},
	{"PivotHigh", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.PivotHigh(h, p, p)) }},
	{"PivotLow", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.PivotLow(l, p, p)) }},
	{"ShiftRight", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.ShiftRight(p, c)) }},
	{"ShiftRightAndFillBy", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.ShiftRightAndFillBy(p, 7, c)) }},
	{"Diff", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Diff(c, p)) }},
	{"PercentDiff", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.PercentDiff(c, p)) }},
	{"Add", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Add(h, l)) }},
	{"Subtract", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Subtract(h, l)) }},
	{"Multiply", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Multiply(h, l)) }},
	{"Divide", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Divide(h, l)) }},
	{"AddBy", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.AddBy(c, 3)) }},
	{"MultiplyBy", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.MultiplyBy(c, 3)) }},
	{"DivideBy", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.DivideBy(c, 3)) }},
	{"Abs", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Abs(c)) }},
	{"Sqrt", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Sqrt(c)) }},
	{"Pow", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.Pow(c, 2)) }},
	{"KeepPositives", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.KeepPositives(c)) }},
	{"KeepNegatives", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.KeepNegatives(c)) }},
	{"ExtractSign", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.ExtractSign(c)) }},
	{"RoundDigitsAll", func(o, h, l, c []float64, p int) [][]float64 { return o1(ta.RoundDigitsAll(c, 2)) }},
	{"MovingLeastSquare", func(o, h, l, c []float64, p int) [][]float64 {
		m, b := utils.MovingLeastSquare(p, o, c)
		return [][]float64{m, b}
	}},
	{"MovingLinearRegression", func(o, h, l, c []float64, p int) [][]float64 {
		return o1(utils.MovingLinearRegressionUsingLeastSquare(p, o, c))
	}},
	{"LinearRegression", func(o, h, l, c []float64, p int) [][]float64 { return o1(utils.LinearRegressionUsingLeastSquare(o, c)) }},
}

// taInputsUnmodified: no array function writes to, or returns storage shared with, its inputs.
func taInputsUnmodified(c *Ctx) {
	for j := 0; j < c.N(20, 300); j++ {
		for _, fn := range arrFns {
			label := fmt.Sprintf("C03/arr/%s/%d", fn.name, j)
			r := NewRng(c.Seed, label)
			c.Case("ta."+fn.name, label, func() {
				s := GenSeries(r, Pick(r, kindsAll), sometimesLong(r, r.Range(1, 80), 0.03, 3000))
				o, h, l, cl := cp(s.O), cp(s.H), cp(s.L), cp(s.C)
				p := r.Range(1, 20)
				res := fn.f(o, h, l, cl, p)
				ok := func() bool {
					return reflect.DeepEqual(o, s.O) && reflect.DeepEqual(h, s.H) && reflect.DeepEqual(l, s.L) && reflect.DeepEqual(cl, s.C)
				}
				if !ok() {
					c.Fail("ta."+fn.name+"/input", label, "period %d over %d values: the input changed", p, s.N())
					return
				}
				for _, v := range res {
					for i := range v {
						v[i] = -12345
					}
				}
				if !ok() {
					c.Fail("ta."+fn.name+"/alias", label, "the result shares storage with the input: writing to the result changed the candles' column")
				}
				c.Seen(hash64(label))
				c.Count("array functions observed", 1)
			})
		}
	}
}

// shortExtras: list operations and array functions on empty and short inputs.
func shortExtras(c *Ctx) {
	c.Case("ta.SD", "C10/SD/empty", func() {
		if v := ta.SD(nil); v != 0 {
			c.Fail("ta.SD/empty", "C10/SD/empty", "the deviation of no values is %v", v)
		}
		c.Seen(hash64("C10/SD/empty"))
	})
	for n := 0; n <= 12; n++ {
		for j := 0; j < c.N(3, 20); j++ {
			for _, fn := range arrFns {
				label := fmt.Sprintf("C10/arr/%s/%d/%d", fn.name, n, j)
				r := NewRng(c.Seed, label)
				c.Case("ta."+fn.name, label, func() {
					s := GenSeries(r, Pick(r, kindsAll), n)
					p := r.Range(1, 20)
					for _, v := range fn.f(cp(s.O), cp(s.H), cp(s.L), cp(s.C), p) {
						if len(v) != n {
							c.Fail("ta."+fn.name+"/len", label, "period %d: %d values for %d inputs", p, len(v), n)
						}
					}
					c.Seen(hash64(label))
				})
			}
		}
		label := fmt.Sprintf("C10/list/%d", n)
		r := NewRng(c.Seed, label)
		c.Case("klines", label, func() {
			s := GenSeries(r, "walk", n)
			for nm, v := range map[string][]float64{"HL2": s.K.HL2(), "HLC3": s.K.HLC3(), "OHLC4": s.K.OHLC4()} {
				if len(v) != n {
					c.Fail(nm+"/len", label, "%d values for %d candles", len(v), n)
				}
			}
			o := s.K.GetOHLC()
			for _, l := range []int{len(o.Open), len(o.High), len(o.Low), len(o.Close), len(o.Volume), len(o.BullMarket), len(o.TimeUnix)} {
				if l != n {
					c.Fail("GetOHLC/len", label, "a column of %d for %d candles", l, n)
				}
			}
			if k := s.K.ToHeikinAshi(); len(k.Candles) != n {
				c.Fail("ToHeikinAshi/len", label, "%d candles for %d", len(k.Candles), n)
			}
			if n == 0 {
				if _, err := s.K.ConvertToNewInterval(2 * s.K.Interval); err == nil {
					c.Fail("ConvertToNewInterval/empty", label, "no error for an empty list")
				}
			}
			k := cloneItem(s.K, 0, n)
			times := map[int64]bool{} // a delivered list may repeat times
			for _, t := range s.T {
				times[t] = true
			}
			k.SortCandlesByTimestamp(true)
			k.SortCandlesByTimestamp(false)
			k.RemoveDuplicates()
			k.RemoveOutsideRange(time.Unix(-1<<40, 0), time.Unix(1<<40, 0))
			if n := len(times); len(k.Candles) != n || len(k.RemoveOutsideRangeCopy(time.Unix(-1<<40, 0), time.Unix(1<<40, 0)).Candles) != n {
				c.Fail("klines/len", label, "sorting, de-duplicating and an all-covering range left %d candles of %d with %d distinct times", len(k.Candles), n, len(times))
			}
			k.Clear()
			if len(k.Candles) != 0 {
				c.Fail("Clear", label, "%d candles left", len(k.Candles))
			}
			a, b := trend.NewAtr(s.K, 5).ChandelierExit(3)
			if len(a) != n || len(b) != n {
				c.Fail("ChandelierExit/len", label, "%d and %d values for %d candles", len(a), len(b), n)
			}
		})
	}
	c.Case("RunStrategies", "C10/run", func() {
		if r := utils.RunStrategies(); len(r) != 0 {
			c.Fail("RunStrategies/empty", "C10/run", "%d results for no strategy", len(r))
		}
	})
	var nilItem *klines.Item
	c.Case("ConvertToNewInterval", "C10/nil", func() {
		if _, err := nilItem.ConvertToNewInterval(klines.OneDay); err == nil {
			c.Fail("ConvertToNewInterval/nil", "C10/nil", "no error for a missing list")
		}
	})
}
