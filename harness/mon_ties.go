package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// Ties decide whether a rule is strict, and ordinary series almost never contain one. This
// workload searches for them: the close of the last candle is bisected until two of the
// strategy's own reported quantities (or one and a threshold, or one and the close) are
// exactly equal, and the signal is judged there, on both neighbouring prices, and on the
// candle that follows the tie.

var tieLevels = []float64{0, 10, 20, 80, 90, 100, -100, -80, -20}

func withLast(s *Series, closes ...float64) *Series {
	k := cloneItem(s.K, 0, s.N())
	step := int64(k.Interval.Duration().Seconds())
	for _, x := range closes {
		o, t := s.C[s.N()-1], s.T[s.N()-1]
		if m := len(k.Candles); m > 0 {
			o, t = k.Candles[m-1].Close, k.Candles[m-1].TimeUnix
		}
		k.Candles = append(k.Candles, &klines.Candle{Open: o, High: math.Max(o, x), Low: math.Min(o, x), Close: x, Volume: s.V[s.N()-1] + 1, TimeUnix: t + step, IsBullMarket: x > o})
	}
	return fromItem(s.Kind, k)
}

func tiesMonitor(c *Ctx, names []string, q, t int) {
	for _, nm := range names {
		sp := specBy[nm]
		n0 := c.N(q, t)
		for j := 0; j < n0; j++ {
			label := fmt.Sprintf("%s/tie/%s/%d", c.Prop, nm, j)
			if c.Only != "" && c.Only != label {
				continue
			}
			r := NewRng(c.Seed, label)
			kd := Pick(r, kindsAll)
			n := r.Range(12, 90)
			if sp.MaxN > 0 && n > sp.MaxN/3 {
				n = sp.MaxN / 3
			}
			s := GenSeries(r, kd, n)
			p := sp.draw(r)
			c.Case(nm, label, func() {
				found, judged := 0, 0
				judge := func(what string, closes ...float64) bool {
					v := withLast(s, closes...)
					o := sp.New(v.K, p)
					sd, _ := SideOf(o)
					f := GetData(o)
					m := v.N()
					if len(sd.Data) != m || f.N != m {
						c.Fail(nm+"/count", label, "%d signals, %d records for %d candles", len(sd.Data), f.N, m)
						return false
					}
					for i := m - len(closes); i < m; i++ {
						want := sp.Rule(f, v, p, i)
						if sd.Data[i] != want {
							c.Fail(nm+"/tie", label, "%s%v on a %s series extended by closes %v (%s): signal %d of %d is %v, its own values say %v (previous %s; current %s)",
								nm, p, kd, closes, what, i, m, sd.Data[i], want, f.Row(i-1), f.Row(i))
							return false
						}
						judged++
						if want == utils.Hold {
							continue
						}
						c.Count("signals at ties: "+nm, 1)
					}
					return true
				}
				quant := func(x float64) map[string]float64 {
					v := withLast(s, x)
					f := GetData(sp.New(v.K, p))
					out := map[string]float64{"close": x}
					if f.N != n+1 {
						return out
					}
					for name, col := range f.V {
						if len(col) == n+1 {
							out[name] = col[n]
						}
					}
					return out
				}
				last := s.C[n-1]
				grid := []float64{last * 0.4, last * 0.7, last * 0.9, last * 0.98, last, last * 1.02, last * 1.1, last * 1.4, last * 2}
				at := make([]map[string]float64, len(grid))
				for i, x := range grid {
					at[i] = quant(x)
				}
				var fields []string
				for name := range at[0] {
					fields = append(fields, name)
				}
				sort.Strings(fields)
				// every pair whose order changes between two neighbouring grid prices
				type crossing struct {
					what string
					g    func(m map[string]float64) float64
					i    int
				}
				var all []crossing
				add := func(what string, g func(m map[string]float64) float64) {
					var here []int
					for i := 1; i < len(grid); i++ {
						if g(at[i-1])*g(at[i]) < 0 {
							here = append(here, i)
						}
					}
					if len(here) > 0 {
						all = append(all, crossing{what, g, Pick(r, here)})
					}
				}
				for ai, a := range fields {
					for _, b := range fields[ai+1:] {
						add(fmt.Sprintf("%s = %s", a, b), func(m map[string]float64) float64 { return m[a] - m[b] })
					}
					if a != "close" {
						for _, lvl := range tieLevels {
							add(fmt.Sprintf("%s = %v", a, lvl), func(m map[string]float64) float64 { return m[a] - lvl })
						}
					}
				}
				for i := range all {
					k := r.Range(i, len(all)-1)
					all[i], all[k] = all[k], all[i]
				}
				for _, cr := range all[:min(len(all), 6)] {
					what, g := cr.what, cr.g
					{
						lo, hi := grid[cr.i-1], grid[cr.i]
						gl := g(at[cr.i-1])
						tie := math.NaN()
						for st := 0; st < 70; st++ {
							mid := lo + (hi-lo)/2
							if mid <= lo || mid >= hi {
								break
							}
							gm := g(quant(mid))
							if gm == 0 {
								tie = mid
								break
							}
							if (gm < 0) == (gl < 0) {
								lo = mid
							} else {
								hi = mid
							}
						}
						if math.IsNaN(tie) {
							// no exact tie at this crossing: the two neighbouring prices
							if !judge("just before "+what, lo) || !judge("just after "+what, hi) {
								return
							}
							continue
						}
						found++
						if !judge("exactly "+what, tie) || !judge(what+" just passed", math.Nextafter(tie, hi)) || !judge(what+" just missed", math.Nextafter(tie, lo)) {
							return
						}
						for _, k := range []float64{0.93, 0.999, 1, 1.001, 1.07} {
							if !judge("the candle after "+what, tie, tie*k) {
								return
							}
						}
					}
				}
				c.Count("exact ties constructed", found)
				c.Count("signals judged at or next to a tie", judged)
				if found > 0 {
					c.Seen(hash64(label, found, judged))
				}
			})
		}
	}
}
