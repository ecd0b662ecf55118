package main

import (
	"time"

	"github.com/idoall/stockindicator/utils"
)

// Published signal rules, each judged on the indicator's own recorded values.
// A rule is consulted for records that have a predecessor (i >= 1).

type ruleFn func(f *Frame, s *Series, p P, i int) utils.Side

func decide(buy, sell bool) utils.Side {
	if buy {
		return utils.Buy
	}
	if sell {
		return utils.Sell
	}
	return utils.Hold
}

// xUp: a strictly below b on the previous record, strictly above on this one.
func xUp(a, b []float64, i int) bool { return a[i-1] < b[i-1] && a[i] > b[i] }
func xDn(a, b []float64, i int) bool { return a[i-1] > b[i-1] && a[i] < b[i] }

func lvlUp(a []float64, x float64, i int) bool { return a[i-1] < x && a[i] > x }
func lvlDn(a []float64, x float64, i int) bool { return a[i-1] > x && a[i] < x }

func setRule(name string, f ruleFn) { specBy[name].Rule = f }

func init() {
	setRule("Boll", func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(xUp(s.C, f.V["Upper"], i), xDn(s.C, f.V["Lower"], i))
	})
	mid := func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(xUp(s.C, f.V["Middle"], i), xDn(s.C, f.V["Middle"], i))
	}
	setRule("DonchianChannel", mid)
	setRule("KeltnerChannel", mid)
	setRule("MoneyFlowIndex", func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(lvlDn(f.V["Value"], 10, i), lvlUp(f.V["Value"], 90, i))
	})
	zero := func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(lvlUp(f.V["Value"], 0, i), lvlDn(f.V["Value"], 0, i))
	}
	for _, n := range []string{"AbsolutePriceOscillator", "AwesomeOscillator", "ChaikinOscillator"} {
		setRule(n, zero)
	}
	pair := func(a, b string) ruleFn {
		return func(f *Frame, s *Series, p P, i int) utils.Side {
			return decide(xUp(f.V[a], f.V[b], i), xDn(f.V[a], f.V[b], i))
		}
	}
	setRule("PercentagePriceOscillator", pair("PPO", "Signal"))
	setRule("StochasticOscillator", pair("K", "D"))
	setRule("StochRsi", pair("K", "D"))
	setRule("StochasticHeat", pair("Slow", "Fast"))
	setRule("UTBot", pair("Close", "Value"))
	setRule("ProjectionOscillator", func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(f.V["Po"][i] > f.V["Spo"][i], f.V["Po"][i] < f.V["Spo"][i])
	})
	setRule("WilliamsR", func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(lvlDn(f.V["Value"], -80, i), lvlUp(f.V["Value"], -20, i))
	})
	cci := func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(lvlDn(f.V["Value"], -100, i), lvlUp(f.V["Value"], 100, i))
	}
	setRule("Cci", cci)
	setRule("AiCoinCCI", cci)
	setRule("Rsi", func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(lvlDn(f.V["Value"], 20, i), lvlDn(f.V["Value"], 80, i))
	})
	setRule("Macd", func(f *Frame, s *Series, p P, i int) utils.Side {
		a, b := f.V["DIF"], f.V["DEA"]
		return decide(xUp(a, b, i) && a[i] > 0 && b[i] > 0, xDn(a, b, i) && a[i] < 0 && b[i] < 0)
	})
	setRule("Kdj", func(f *Frame, s *Series, p P, i int) utils.Side {
		k, d, j := f.V["K"], f.V["D"], f.V["J"]
		return decide(xUp(k, d, i) && xUp(j, d, i), xDn(k, d, i) && xDn(j, d, i))
	})
	setRule("IchimokuCloud", func(f *Frame, s *Series, p P, i int) utils.Side {
		if i < p.I(0) {
			return utils.Hold
		}
		a, b := f.V["LeadingSpanA"], f.V["LeadingSpanB"]
		return decide(xUp(s.C, a, i) && xUp(s.C, b, i), xDn(s.C, a, i) && xDn(s.C, b, i))
	})
	begin := func(f *Frame, s *Series, p P, i int) utils.Side {
		return decide(f.V["UpTrendBegin"][i] != 0, f.V["DownTrendBegin"][i] != 0)
	}
	setRule("SuperTrend", begin)
	setRule("PivotPointSuperTrend", begin)
	setRule("EMAVegas", func(f *Frame, s *Series, p P, i int) utils.Side {
		v, s1, s2, l1, l2 := f.V["Value"], f.V["Short1Value"], f.V["Short2Value"], f.V["Long1Value"], f.V["Long2Value"]
		if i < 11 {
			return utils.Hold
		}
		up, dn := false, false
		for k := i - 10; k < i; k++ {
			up = up || xUp(s2, l2, k)
			dn = dn || xDn(s2, l2, k)
		}
		hiS, loS := max(s1[i], s2[i]), min(s1[i], s2[i])
		hiL, loL := max(l1[i], l2[i]), min(l1[i], l2[i])
		bull := s.K.Candles[i].IsBullMarket
		return decide(v[i] > s1[i] && loS > hiL && bull && up, v[i] < s1[i] && hiS < loL && !bull && dn)
	})
	setRule("TraderXO", func(f *Frame, s *Series, p P, i int) utils.Side {
		// the first record above (below) since the averages were last the other way round
		a, b := f.V["Fast"], f.V["Slow"]
		first := func(in, opp func(j int) bool) bool {
			if !in(i) {
				return false
			}
			for j := i - 1; j >= 1; j-- {
				if in(j) {
					return false
				}
				if opp(j) {
					return true
				}
			}
			return true
		}
		gt := func(j int) bool { return a[j] > b[j] }
		lt := func(j int) bool { return a[j] < b[j] }
		return decide(first(gt, lt), first(lt, gt))
	})
	setRule("Camarilla", func(f *Frame, s *Series, p P, i int) utils.Side {
		// judged against itself: the levels of the first candle of the same calendar day
		day := func(t int64) string { return time.Unix(t, 0).Format("2006-01-02") }
		h4 := f.V["High4"][firstWith(s.T, func(t int64) bool { return day(t) == day(s.T[i]) })]
		e := f.V["EMA"][i]
		return decide(s.C[i] < e && s.C[i] > h4 && s.O[i] < h4, s.C[i] > e && s.C[i] < h4 && s.O[i] > h4)
	})
}

func firstWith(t []int64, f func(t int64) bool) int {
	for i, x := range t {
		if f(x) {
			return i
		}
	}
	return -1
}
