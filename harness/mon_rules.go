package main

import (
	"fmt"
	"time"

	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

const ruleRule = "One case = one strategy with default or random parameters on one generated series; every signal is compared with the published rule evaluated on the indicator's own recorded values. Extra cases search for exact ties: the last close is bisected until two reported quantities, or one and a threshold, are equal, and the signal is judged at, beside and after the tie. Non-trivial: the case contains at least one Buy or Sell, or an exact tie."

func rulesMonitor(names []string, q, t int, extra func(c *Ctx)) func(c *Ctx) {
	return func(c *Ctx) {
		for _, nm := range names {
			sp := specBy[nm]
			for _, kd := range append([]string{"long"}, kindsAll...) {
				long := kd == "long"
				for j := 0; j < c.N(q, t); j++ {
					label := fmt.Sprintf("%s/%s/%s/%d", c.Prop, nm, kd, j)
					if c.Only != "" && c.Only != label {
						continue
					}
					r := NewRng(c.Seed, label)
					n := r.Range(30, 400)
					if r.Chance(0.1) {
						n = Pick(r, shortLens)
					}
					if sp.MaxN > 0 && n > sp.MaxN {
						n = sp.MaxN
					}
					kd, p := kd, sp.draw(r)
					if long {
						kd, n = Pick(r, kindsAll), longLen(r, sp, 4200)
						p = sp.drawLong(r, n)
						c.Count("long series", 1)
					}
					s := GenSeries(r, kd, n)
					if nm == "Camarilla" && r.Chance(0.5) {
						s.K.Interval = klines.OneHour
					}
					c.Case(nm, label, func() {
						o := sp.New(s.K, p)
						sd, _ := SideOf(o)
						f := GetData(o)
						if len(sd.Data) != n || f.N != n {
							c.Fail(nm+"/count", label, "%d signals, %d records for %d candles", len(sd.Data), f.N, n)
							return
						}
						buys, sells := 0, 0
						for i := 0; i < n; i++ {
							want := utils.Hold
							if i > 0 {
								want = sp.Rule(f, s, p, i)
							} else if levelStrategy[nm] {
								continue
							}
							if sd.Data[i] != want {
								c.Fail(nm+"/rule", label, "%s%v on a %s series: signal %d of %d is %v, its own values say %v (previous %s; current %s; close %v then %v)",
									nm, p, kd, i, n, sd.Data[i], want, f.Row(max(0, i-1)), f.Row(i), s.C[max(0, i-1)], s.C[i])
								return
							}
							if want == utils.Buy {
								buys++
							}
							if want == utils.Sell {
								sells++
							}
						}
						c.Count("signals compared", n)
						c.Count("Buy "+nm, buys)
						c.Count("Sell "+nm, sells)
						if buys+sells > 0 {
							c.Seen(hash64(label, buys, sells, s.C[n/2]))
						}
					})
					if j == 0 {
						d := s.Desc()
						d["strategy"], d["params"] = nm, p
						c.Sample(d)
					}
				}
			}
		}
		if extra != nil {
			extra(c)
		}
	}
}

// camarillaOther judges intraday candles against the levels of a second, daily series.
func camarillaOther(c *Ctx) {
	for j := 0; j < c.N(60, 800); j++ {
		label := fmt.Sprintf("%s/CamarillaDaily/%d", c.Prop, j)
		r := NewRng(c.Seed, label)
		c.Case("Camarilla", label, func() {
			kind := Pick(r, kindsAll)
			s := GenSeries(r, kind, r.Range(30, 300))
			step := int64(3600) * int64(Pick(r, []int{1, 2, 4, 6}))
			t0 := int64(1600000000 - 1600000000%86400)
			for i, cd := range s.K.Candles {
				cd.TimeUnix = t0 + int64(i)*step
				s.T[i] = cd.TimeUnix
			}
			// daily candles whose levels lie near the intraday prices; some days missing
			day := &klines.Item{Interval: klines.OneDay}
			var seen = map[string]float64{}
			last := ""
			for i := range s.K.Candles {
				d := time.Unix(s.T[i], 0).Format("2006-01-02")
				if d == last {
					continue
				}
				last = d
				if r.Chance(0.15) {
					continue
				}
				h := s.C[i] * (1 + 0.01*r.F())
				l := h * (1 - 0.02*r.F())
				cl := l + (h-l)*r.F()*0.4
				day.Candles = append(day.Candles, &klines.Candle{Open: cl, High: h, Low: l, Close: cl, Volume: 1, TimeUnix: s.T[i]})
				seen[d] = cl + (h-l)*1.1/2
			}
			p := r.Range(1, 20)
			o := oscillator.NewCamarilla(s.K, p)
			sd := o.AnalysisSide(day)
			f := GetData(o)
			if len(sd.Data) != s.N() {
				c.Fail("Camarilla/count", label, "%d signals for %d candles", len(sd.Data), s.N())
				return
			}
			h4, have := 0.0, false
			sig := 0
			for i := range s.C {
				if x, ok := seen[time.Unix(s.T[i], 0).Format("2006-01-02")]; ok {
					h4, have = x, true
				}
				want := utils.Hold
				if have {
					e := f.V["EMA"][i]
					if near(s.C[i], h4, 1e-9, 0) || near(s.O[i], h4, 1e-9, 0) {
						continue
					}
					want = decide(s.C[i] < e && s.C[i] > h4 && s.O[i] < h4, s.C[i] > e && s.C[i] < h4 && s.O[i] > h4)
				}
				if sd.Data[i] != want {
					c.Fail("Camarilla/daily", label, "candle %d: %v, expected %v (open %v close %v EMA %v daily High4 %v)", i, sd.Data[i], want, s.O[i], s.C[i], f.V["EMA"][i], h4)
					return
				}
				if want != utils.Hold {
					sig++
				}
			}
			c.Count("Camarilla signals against daily levels", sig)
			c.Seen(hash64(label, sig))
		})
	}
}

func init() {
	var groups = map[string][]string{
		"C12": {"Boll", "DonchianChannel", "KeltnerChannel", "MoneyFlowIndex", "AbsolutePriceOscillator", "AwesomeOscillator", "ChaikinOscillator", "PercentagePriceOscillator",
			"StochasticOscillator", "ProjectionOscillator", "WilliamsR", "IchimokuCloud", "Camarilla"},
		"C13": {"Cci", "AiCoinCCI", "Rsi", "StochRsi", "StochasticHeat", "UTBot", "Macd", "Kdj", "SuperTrend", "PivotPointSuperTrend", "EMAVegas", "TraderXO"},
	}
	reg(&PropDef{ID: "C12", Rule: ruleRule, Run: rulesMonitor(groups["C12"], 10, 120, func(c *Ctx) { camarillaOther(c); tiesMonitor(c, groups["C12"], 40, 500) })})
	reg(&PropDef{ID: "C13", Rule: ruleRule, Run: rulesMonitor(groups["C13"], 10, 100, func(c *Ctx) { tiesMonitor(c, groups["C13"], 40, 500) })})
}
