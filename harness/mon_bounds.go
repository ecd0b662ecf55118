package main

import (
	"fmt"
	"math"
)

type bound struct {
	col    string
	lo, hi float64
}

var inf = math.Inf(1)

// value ranges of the bounded columns
var bounds = map[string][]bound{
	"Rsi":                       {{"Value", 0, 100}},
	"StochRsi":                  {{"K", 0, 100}, {"D", 0, 100}},
	"StochasticOscillator":      {{"K", 0, 100}, {"D", 0, 100}},
	"Kdj":                       {{"RSV", 0, 100}, {"K", 0, 100}, {"D", 0, 100}, {"J", -200, 300}},
	"MoneyFlowIndex":            {{"Value", 0, 100}},
	"AverageDirectionalIndex":   {{"DIPlus", 0, 100}, {"DIMins", 0, 100}, {"ADX", 0, 100}},
	"WilliamsR":                 {{"Value", -100, 0}},
	"ChaikinMoneyFlow":          {{"Value", -1, 1}},
	"UlcerIndex":                {{"Value", 0, 100}},
	"Vortex":                    {{"PlusVi", 0, inf}, {"MinusVi", 0, inf}},
	"Atr":                       {{"TR", 0, inf}, {"Atr", 0, inf}},
	"Boll":                      {{"MD", 0, inf}},
	"NegativeVolumeIndex":       {{"Value", 0, inf}},
	"StochasticHeat":            {{"Fast", 0, 28}, {"Slow", 0, 28}},
	"PercentagePriceOscillator": {{"PPO", -100, inf}},
	"VolumeOscillator":          {{"Value", -100, inf}},
}

// columns that must be ordered from small to large on every record
var chains = map[string][]string{
	"Boll":            {"Lower", "Middle", "Upper"},
	"DonchianChannel": {"Lower", "Middle", "Upper"},
	"KeltnerChannel":  {"Lower", "Middle", "Upper"},
	"Camarilla":       {"Low6", "Low5", "Low4", "Low3", "Low2", "Low1", "High1", "High2", "High3", "High4", "High5", "High6"},
}

// columns that are averages or mid-points: always inside the range of prices seen so far
var inside = map[string][]string{
	"Sma": {"Value"}, "Ma": {"Value"}, "Ema": {"Value"}, "Rma": {"Value"}, "TraderXO": {"Fast", "Slow"},
	"EMAVegas":        {"Value", "Short1Value", "Short2Value", "Long1Value", "Long2Value"},
	"DonchianChannel": {"Lower", "Middle", "Upper"},
	"IchimokuCloud":   {"ConversionLine", "BaseLine", "LeadingSpanA", "LeadingSpanB"},
	"KeltnerChannel":  {"Middle"}, "Boll": {"Middle"}, "Camarilla": {"EMA", "Pivot"},
}

func init() {
	reg(&PropDef{ID: "C09", Rule: "One case = one bounded or ordered indicator with default or random parameters on one generated series; every record is checked against its range, its ordering and the prices seen so far. Non-trivial: 10 or more candles.",
		Asm: []string{"candle series valid: low <= open,close <= high, positive prices, non-negative volume"},
		Run: func(c *Ctx) {
			names := map[string]bool{"Vwma": true, "BreakoutProbability": true}
			for n := range bounds {
				names[n] = true
			}
			for n := range chains {
				names[n] = true
			}
			for n := range inside {
				names[n] = true
			}
			for _, nm := range sortedKeys(names) {
				sp := specBy[nm]
				for _, kd := range append([]string{"long"}, kindsAll...) {
					long := kd == "long"
					for j := 0; j < c.N(6, 80); j++ {
						label := fmt.Sprintf("C09/%s/%s/%d", nm, kd, j)
						if c.Only != "" && c.Only != label {
							continue
						}
						r := NewRng(c.Seed, label)
						n := r.Range(10, 300)
						if r.Chance(0.15) {
							n = Pick(r, shortLens)
						}
						if sp.MaxN > 0 && n > sp.MaxN {
							n = sp.MaxN
						}
						kd, p := kd, sp.draw(r)
						if long {
							kd, n = Pick(r, kindsAll), longLen(r, sp, 4200)
							p = sp.drawLong(r, n)
							c.Count("long series", 1)
						}
						s := GenSeries(r, kd, n)
						c.Case(nm, label, func() { checkBounds(c, sp, s, p, label) })
						if j == 0 {
							d := s.Desc()
							d["indicator"], d["params"] = nm, p
							c.Sample(d)
						}
					}
				}
			}
		}})
}

func checkBounds(c *Ctx, sp *Spec, s *Series, p P, label string) {
	f := GetData(sp.New(s.K, p))
	nm := sp.Name
	n := f.N
	if n >= 10 {
		c.Seen(hash64(label, s.C[n/2], p))
	}
	bs := bounds[nm]
	if nm == "BreakoutProbability" {
		for i := 0; i < 10; i++ {
			bs = append(bs, bound{fmt.Sprintf("List%d.Per", i), 0, 100}, bound{fmt.Sprintf("List%d.Up", i), 0, 1})
		}
		bs = append(bs, bound{"Win", 0, float64(n)}, bound{"Loss", 0, float64(n)})
	}
	for _, b := range bs {
		for i, x := range f.V[b.col] {
			e := 1e-7
			if !math.IsInf(b.hi, 0) {
				e = 1e-9 * math.Max(1, math.Abs(b.hi-b.lo))
			} else {
				e = 1e-12 * s.Scale
			}
			if !(x >= b.lo-e && x <= b.hi+e) {
				c.Fail(nm+"/"+b.col, label, "%s%v on a %s series of %d candles: %s[%d] = %v, outside [%v, %v]", nm, p, s.Kind, n, b.col, i, x, b.lo, b.hi)
				return
			}
		}
		c.Count("values bounded", n)
	}
	tol := 1e-9 * s.Scale
	ch := chains[nm]
	for k := 1; k < len(ch); k++ {
		a, b := f.V[ch[k-1]], f.V[ch[k]]
		for i := range a {
			if !(a[i] <= b[i]+tol*(1+math.Abs(b[i])/s.Scale)) {
				c.Fail(nm+"/order", label, "%s%v on a %s series: %s[%d] = %v above %s = %v", nm, p, s.Kind, ch[k-1], i, a[i], ch[k], b[i])
				return
			}
		}
		c.Count("orderings observed", n)
	}
	if nm == "DonchianChannel" {
		for i := 0; i < n; i++ {
			if s.C[i] > f.V["Upper"][i] || s.C[i] < f.V["Lower"][i] {
				c.Fail(nm+"/close", label, "close %v at %d outside the channel [%v, %v]", s.C[i], i, f.V["Lower"][i], f.V["Upper"][i])
				return
			}
		}
	}
	cols := inside[nm]
	if nm == "Vwma" {
		cols = []string{"Value"}
	}
	lo, hi := inf, -inf
	for i := 0; i < n; i++ {
		lo, hi = math.Min(lo, s.L[i]), math.Max(hi, s.H[i])
		for _, col := range cols {
			x := f.V[col][i]
			if nm == "Vwma" && x == 0 && sumOf(win(s.V, i, p.I(0))) == 0 {
				continue
			}
			if !(x >= lo-tol && x <= hi+tol) {
				c.Fail(nm+"/"+col, label, "%s%v on a %s series: %s[%d] = %v outside the prices so far [%v, %v]", nm, p, s.Kind, col, i, x, lo, hi)
				return
			}
		}
	}
	c.Count("averages inside the price range", n*len(cols))
}
