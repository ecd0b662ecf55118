package main

import (
	"fmt"
	"github.com/idoall/stockindicator/trend"
	"math"
)

// compareRef judges the recorded output of one indicator against its model.
func compareRef(c *Ctx, sp *Spec, label string, f *Frame, s *Series, p P) {
	compareTo(c, sp, label, f, s, p, sp.Ref(s, p))
	if sp.Step != nil && f.N == s.N() {
		compareTo(c, sp, label, f, s, p, sp.Step(s, p, f))
		c.Count("series judged step by step", 1)
	}
}

func compareTo(c *Ctx, sp *Spec, label string, f *Frame, s *Series, p P, ref *RefOut) {
	n := s.N()
	if f.N != n {
		c.Fail(sp.Name+"/count", label, "%d records for %d candles", f.N, n)
		return
	}
	lim := n
	if ref.Cut > 0 && ref.Cut < n {
		lim = ref.Cut
		c.Skip(sp.Name + ": series cut before a comparison of two values equal up to rounding")
	}
	for _, col := range sortedKeys(ref.V) {
		want := ref.V[col]
		got := f.V[col]
		for i := 0; i < lim; i++ {
			if math.IsNaN(want[i]) {
				c.Skip(sp.Name + ": ill-conditioned value not compared")
				continue
			}
			var g float64
			if got != nil {
				g = got[i]
			}
			if !near(g, want[i], 1e-7, ref.Floor[col]) {
				c.Fail(sp.Name+"/"+col, label, "%s%v on a %s series of %d candles: %s[%d] = %v, expected %v", sp.Name, p, s.Kind, n, col, i, g, want[i])
				return
			}
		}
		c.Count("values compared "+sp.Name, lim)
	}
}

func refMonitor(names []string, perKindQ, perKindT int) func(c *Ctx) {
	return func(c *Ctx) {
		for _, nm := range names {
			sp := specBy[nm]
			for _, kd := range kindsAll {
				for j := 0; j < c.N(perKindQ, perKindT); j++ {
					label := fmt.Sprintf("%s/%s/%s/%d", c.Prop, nm, kd, j)
					if c.Only != "" && c.Only != label {
						continue
					}
					r := NewRng(c.Seed, label)
					n := r.Range(20, 300)
					if r.Chance(0.15) {
						n = Pick(r, shortLens)
					}
					if r.Chance(0.1) {
						n = r.Range(300, 700)
					}
					if sp.MaxN > 0 && n > sp.MaxN {
						n = sp.MaxN - r.Intn(20)
					}
					p := sp.draw(r)
					if m := edgeLen(r, sp, p, n); m != n {
						n = m
						c.Count("series as long as a window, give or take a candle", 1)
					}
					s := GenSeries(r, kd, n)
					c.Case(sp.Name, label, func() {
						compareRef(c, sp, label, GetData(sp.New(s.K, p)), s, p)
						if n >= 10 {
							c.Seen(hash64(label, s.C[n/2], p))
						}
						if j%2 == 0 { // the same list object, candles corrected since
							e := s.Edited(r)
							compareRef(c, sp, label, GetData(sp.New(e.K, p)), e, p)
							c.Count("series judged again after a change in place", 1)
						}
					})
					if j == 0 {
						d := s.Desc()
						d["indicator"], d["params"] = nm, p
						c.Sample(d)
					}
				}
			}
			// long series and windows far above the defaults
			for j := 0; j < c.N(max(8, perKindQ), perKindT*4); j++ {
				label := fmt.Sprintf("%s/%s/long/%d", c.Prop, nm, j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				kd := kindsAll[(j*7+r.Intn(7))%len(kindsAll)]
				n := longLen(r, sp, 4200)
				p := sp.drawLong(r, n)
				if j%8 == 7 && sp.MaxN == 0 { // years of minutes
					n = Pick(r, []int{r.Range(8000, 12000), r.Range(16000, 20000), r.Range(32700, 33000), r.Range(65500, 66000)})
					p = sp.draw(r)
					c.Count("series above 8000 candles", 1)
				}
				s := GenSeries(r, kd, n)
				c.Case(sp.Name, label, func() {
					compareRef(c, sp, label, GetData(sp.New(s.K, p)), s, p)
					c.Seen(hash64(label, s.C[n/2], p))
					c.Count("long series", 1)
				})
			}
		}
	}
}

const refRule = "One case = one indicator with default or random parameters on one generated series (20 market shapes, 1..4200 candles); every value of every record is compared with an independent model computed from the candles. Non-trivial: 10 or more candles; distinct by series and parameters."

var refAsm = []string{
	"values whose definition divides by a rounding-level quantity, and state machines after two compared values differ only by rounding, are not judged (counted as skipped)",
	"candle series valid: low <= open,close <= high, positive prices, non-negative volume"}

func regRef(id string, names []string, q, t int, extra func(c *Ctx)) {
	m := refMonitor(names, q, t)
	reg(&PropDef{ID: id, Rule: refRule, Asm: refAsm, Run: func(c *Ctx) {
		m(c)
		if extra != nil {
			extra(c)
		}
	}})
}

// bpLines: a number of levels outside 1..5 means the nearest allowed one.
func bpLines(c *Ctx) {
	for j := 0; j < c.N(20, 200); j++ {
		label := fmt.Sprintf("%s/lines/%d", c.Prop, j)
		r := NewRng(c.Seed, label)
		c.Case("BreakoutProbability", label, func() {
			kd := Pick(r, kindsAll)
			s := GenSeries(r, kd, r.Range(1, 120))
			step := float64(r.Range(1, 40)) / 16
			ask := Pick(r, []int{-7, -1, 0, 6, 7, 12, 100})
			use := 1
			if ask > 5 {
				use = 5
			}
			want := GetData(trend.NewBreakoutProbability(s.K, step, use))
			for k, o := range []any{trend.NewBreakoutProbability(s.K, step, ask), trend.NewBreakoutProbabilityOHLC(s.K.GetOHLC(), step, ask)} {
				got := GetData(o)
				if got.N != want.N {
					c.Fail("BreakoutProbability/lines", label, "%d levels asked (form %d): %d records, %d with %d levels", ask, k, got.N, want.N, use)
				} else if d := diffFrame(got, want, got.N, 0, 0); d != "" {
					c.Fail("BreakoutProbability/lines", label, "%d levels asked (form %d) differs from %d levels: %s", ask, k, use, d)
				}
			}
			c.Count("level numbers out of range", 2)
			c.Seen(hash64(label))
		})
	}
}

func init() {
	regRef("C14", []string{"Sma", "Ma", "Ema", "Dema", "Rma"}, 8, 100, taAverages)
	regRef("C15", []string{"DonchianChannel"}, 6, 60, taExtremes)
	regRef("C19", []string{"Atr", "Boll", "KeltnerChannel", "UlcerIndex"}, 8, 100, taVolatility)
	regRef("C20", []string{"Rsi", "StochasticOscillator", "WilliamsR", "Kdj", "StochRsi", "Cci", "AiCoinCCI", "ProjectionOscillator"}, 6, 80, taOsc)
	regRef("C21", []string{"Macd", "PercentagePriceOscillator", "VolumeOscillator", "AbsolutePriceOscillator", "AwesomeOscillator", "ChaikinOscillator"}, 8, 100, nil)
	regRef("C22", []string{"AccumulationDistribution", "ChaikinMoneyFlow", "EaseOfMovement", "ForceIndex", "MoneyFlowIndex", "NegativeVolumeIndex", "Obv", "VolumePriceTrend", "Vwma"}, 6, 80, nil)
	regRef("C23", []string{"SuperTrend", "PivotPointSuperTrend", "UTBot", "TraderXO", "EMAVegas"}, 10, 140, stopTies)
	regRef("C24", []string{"AverageDirectionalIndex", "Vortex", "LinearRegressionCandles", "StochasticHeat"}, 6, 50, nil)
	regRef("C25", []string{"Camarilla", "IchimokuCloud"}, 10, 140, nil)
	regRef("C34", []string{"BreakoutProbability", "ReversalSignals"}, 14, 160, bpLines)
}

// stopTies puts a close exactly on a reported trailing line, and on the two neighbouring
// prices, and follows it for a few candles.
func stopTies(c *Ctx) {
	for _, nm := range []string{"SuperTrend", "PivotPointSuperTrend", "UTBot"} {
		sp := specBy[nm]
		for j := 0; j < c.N(150, 2000); j++ {
			label := fmt.Sprintf("%s/%s/stop/%d", c.Prop, nm, j)
			if c.Only != "" && c.Only != label {
				continue
			}
			r := NewRng(c.Seed, label)
			kd := Pick(r, kindsAll)
			s := GenSeries(r, kd, r.Range(12, 120))
			p := sp.draw(r)
			c.Case(nm, label, func() {
				var lines []float64
				for round := 0; round < 3; round++ {
					f := GetData(sp.New(s.K, p))
					lines = lines[:0]
					for _, col := range []string{"Value", "UpTrend", "DownTrend", "UpTrendBegin", "DownTrendBegin"} {
						if v := f.at(col, f.N-1); v > 0 {
							lines = append(lines, v)
						}
					}
					if len(lines) == 0 {
						return
					}
					x := Pick(r, lines)
					switch r.Intn(6) {
					case 0:
						x = math.Nextafter(x, 0)
					case 1:
						x = math.Nextafter(x, x*2)
					}
					for _, then := range []float64{0.9, 1, 1.1} {
						v := withLast(s, x, x*then, x)
						compareRef(c, sp, label, GetData(sp.New(v.K, p)), v, p)
					}
					s = withLast(s, x)
					if r.Chance(0.5) {
						s = withLast(s, x*(0.9+0.2*r.F()))
					}
					c.Count("closes put on a trailing line: "+nm, 1)
				}
				c.Seen(hash64(label, s.C[s.N()-1]))
			})
		}
	}
}
