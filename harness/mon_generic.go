package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

type RefOut struct {
	V map[string][]float64 // NaN: no expectation
	// Tol / Floor override the comparison tolerance per column (relative, absolute).
	Floor map[string]float64
	Cut   int // compare records before this index only (0: all)
}

// forSeries runs f on a deterministic family of series for every indicator.
func forSeries(c *Ctx, tag string, kinds []string, perKind int, lens func(r *Rng) int, f func(sp *Spec, s *Series, p P, label string, r *Rng)) {
	run := func(sp *Spec, kd, label string, n int, long bool, r *Rng, sample bool) {
		p := P(nil)
		if long {
			p = sp.drawLong(r, n)
			c.Count("long series", 1)
		} else {
			p = sp.draw(r)
			if m := edgeLen(r, sp, p, n); m != n {
				n = m
				c.Count("series as long as a window, give or take a candle", 1)
			}
		}
		s := GenSeries(r, kd, n)
		c.Case(sp.Name, label, func() {
			f(sp, s, p, label, r)
			if n >= 10 {
				c.Seen(hash64(label, s.C[n/2], s.C[n-1], p))
			}
			c.Count("records observed", n)
		})
		if sample {
			d := s.Desc()
			d["indicator"] = sp.Name
			d["params"] = p
			c.Sample(d)
		}
	}
	for _, sp := range specs {
		for _, kd := range kinds {
			for j := 0; j < perKind; j++ {
				label := fmt.Sprintf("%s/%s/%s/%d", tag, sp.Name, kd, j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				n := lens(r)
				if sp.MaxN > 0 && n > sp.MaxN {
					n = sp.MaxN - r.Intn(20)
				}
				run(sp, kd, label, n, false, r, j == 0)
			}
		}
		for j := 0; j < c.N(2, 20); j++ {
			label := fmt.Sprintf("%s/%s/long/%d", tag, sp.Name, j)
			if c.Only != "" && c.Only != label {
				continue
			}
			r := NewRng(c.Seed, label)
			run(sp, Pick(r, kinds), label, longLen(r, sp, longCap(tag)), true, r, false)
		}
		for j := 0; j < c.N(1, 5) && longCap(tag) > 4000 && sp.MaxN == 0 && sp.Name != "Camarilla"; j++ { // months of minutes (Camarilla's signals look every day up: quadratic)
			label := fmt.Sprintf("%s/%s/vast/%d", tag, sp.Name, j)
			if c.Only != "" && c.Only != label {
				continue
			}
			r := NewRng(c.Seed, label)
			run(sp, Pick(r, kinds), label, Pick(r, []int{r.Range(8000, 12000), r.Range(16300, 16500), 16384, 16385}), false, r, false)
			c.Count("series above 8000 candles", 1)
		}
	}
}

// edgeLen now and then replaces the length by one at which a window of the
// parameters just fails to fill, fills, or has one candle more.
func edgeLen(r *Rng, sp *Spec, p P, n int) int {
	if n > 1000 || !r.Chance(0.1) {
		return n
	}
	m := 0
	for _, v := range p {
		if v == math.Trunc(v) && v >= 1 && v <= 300 && (m == 0 || r.Chance(0.5)) {
			if m > 0 && r.Chance(0.4) { // one window after another
				m += int(v)
			} else {
				m = int(v)
			}
		}
	}
	m += r.Range(-1, 2)
	if m < 1 || (sp.MaxN > 0 && m > sp.MaxN) {
		return n
	}
	return m
}

// longCap bounds the long series where a case costs the square of its length.
func longCap(tag string) int {
	switch tag {
	case "C02", "C03", "C04":
		return 700
	}
	return 4200
}

func mixLens(hi int) func(r *Rng) int {
	return func(r *Rng) int {
		if r.Chance(0.3) {
			return Pick(r, shortLens)
		}
		return r.Range(32, hi)
	}
}

func checkAligned(c *Ctx, key, label string, f *Frame, s *Series, how string) bool {
	if f.N != s.N() {
		c.Fail(key, label, "%s: %d records for %d candles", how, f.N, s.N())
		return false
	}
	for i := 0; i < f.N; i++ {
		if f.Zero[i] || f.T[i] != s.T[i] {
			c.Fail(key, label, "%s: record %d of %d carries time %d (zero=%v), its candle opens at %d", how, i, f.N, f.T[i], f.Zero[i], s.T[i])
			return false
		}
	}
	return true
}

func accessors(sp *Spec, obj any) map[string][][]float64 {
	out := map[string][][]float64{}
	for name := range sp.Acc {
		rs := callM(obj, name)
		if rs == nil {
			continue
		}
		for _, v := range rs {
			out[name] = append(out[name], v.Interface().([]float64))
		}
	}
	return out
}

func init() {
	reg(&PropDef{ID: "C01", Rule: "One case = one indicator (all 49, defaults or random parameters) on one generated candle series (20 market shapes, lengths 1..400). Non-trivial: series of 10 or more candles; distinct by series content and parameters.",
		Asm: []string{"candle series valid: low <= open,close <= high, positive prices, non-negative volume, strictly increasing times"},
		Run: func(c *Ctx) {
			forSeries(c, "C01", kindsAll, c.N(4, 40), mixLens(260), func(sp *Spec, s *Series, p P, label string, r *Rng) {
				// three ways of reaching the records
				lazy := GetData(sp.New(s.K, p))
				if !checkAligned(c, sp.Name+"/GetData", label, lazy, s, "GetData on a fresh indicator") {
					return
				}
				o := sp.New(s.K, p)
				Calc(o)
				if !checkAligned(c, sp.Name+"/Calculation", label, GetData(o), s, "GetData after Calculation") {
					return
				}
				if sp.NewDef != nil {
					checkAligned(c, sp.Name+"/default", label, GetData(sp.NewDef(s.K)), s, "default constructor")
				}
				// accessors on a fresh indicator must be as long and hold the same values
				for name, cols := range sp.Acc {
					rs := callM(sp.New(s.K, p), name)
					if len(rs) == 0 {
						continue
					}
					for j, v := range rs {
						xs := v.Interface().([]float64)
						if len(xs) != s.N() {
							c.Fail(sp.Name+"/"+name, label, "%s returned %d values for %d candles", name, len(xs), s.N())
							return
						}
						for i, x := range xs {
							if !near(x, lazy.V[cols[j]][i], 1e-12, 0) {
								c.Fail(sp.Name+"/"+name, label, "%s[%d] = %v but record %s is %v", name, i, x, cols[j], lazy.V[cols[j]][i])
								return
							}
						}
						c.Count("accessor values compared", len(xs))
					}
				}
			})
		}})

	reg(&PropDef{ID: "C02", Rule: "One case = one indicator and series; a random history of 6 to 12 (short series: up to 90) public calls (Calculation, GetData, AnalysisSide, accessors) with the full output compared after each or after some. Non-trivial: 10 or more candles.",
		Run: func(c *Ctx) {
			forSeries(c, "C02", kindsAll, c.N(2, 24), mixLens(200), func(sp *Spec, s *Series, p P, label string, r *Rng) {
				base := sp.New(s.K, p)
				want := GetData(base)
				wantSide, hasSide := SideOf(sp.New(s.K, p))
				wantAcc := accessors(sp, sp.New(s.K, p))
				o := sp.New(s.K, p)
				hist := ""
				m, quiet := r.Range(6, 12), 0.0
				if r.Chance(0.3) { // records are not read after every call
					quiet = 0.6
				}
				if s.N() <= 60 && sp.Name != "SmartMoneyConcepts" && r.Chance(0.2) {
					m = r.Range(30, 90)
				}
				for k := 0; k < m; k++ {
					switch r.Intn(4) {
					case 0:
						hist += "Calculation "
						Calc(o)
					case 1:
						hist += "AnalysisSide "
						if sd, ok := SideOf(o); ok && !reflect.DeepEqual(sd, wantSide) {
							c.Fail(sp.Name+"/side", label, "after [%s] the signals differ from a fresh indicator's (first difference at %d)", hist, firstDiffSide(sd, wantSide))
							return
						}
					case 2:
						hist += "accessors "
						got := accessors(sp, o)
						for _, name := range sortedKeys(wantAcc) {
							if !sameAcc(got[name], wantAcc[name]) {
								c.Fail(sp.Name+"/acc", label, "after [%s] %s differs from a fresh indicator's", hist, name)
								return
							}
						}
					case 3:
						hist += "GetData "
					}
					if len(hist) > 400 {
						hist = "..." + hist[len(hist)-300:]
					}
					if r.Chance(quiet) {
						continue
					}
					got := GetData(o)
					if got.N != want.N {
						c.Fail(sp.Name+"/count", label, "after [%s] %d records instead of %d", hist, got.N, want.N)
						return
					}
					if d := diffFrame(got, want, want.N, 0, 0); d != "" {
						c.Fail(sp.Name+"/data", label, "after [%s] %s", hist, d)
						return
					}
					c.Count("calls observed", 1)
				}
				if !hasSide && s.N() < 4 {
					return
				}
				// the candles of the list are corrected in place and the same instance calculates again: it
				// answers like a new one, over the candles as they are now or as they were when it was built
				old := s.Clone()
				e := s.Edited(r)
				Calc(o)
				got := GetData(o)
				gotSide, _ := SideOf(o)
				bad := ""
				for _, x := range []*Series{e, old} {
					w := GetData(sp.New(x.Clone().K, p))
					ws, _ := SideOf(sp.New(x.Clone().K, p))
					if got.N != w.N {
						bad = fmt.Sprintf("%d records instead of %d", got.N, w.N)
					} else if bad = diffFrame(got, w, w.N, 0, 0); bad == "" {
						if i := firstDiffSide(gotSide, ws); i >= 0 {
							bad = fmt.Sprintf("signal %d", i)
						}
					}
					if bad == "" {
						break
					}
				}
				if bad != "" {
					c.Fail(sp.Name+"/recalculated", label, "after [%s], candles corrected in place and Calculation, the answers are neither those of the new nor of the old candles: %s", hist, bad)
				}
				c.Count("recalculations after a change in place", 1)
			})
		}})

	reg(&PropDef{ID: "C03", Rule: "One case = one indicator on a series, next to a second instance with other parameters or another series, calls interleaved; every candle field is compared with a copy taken before. Non-trivial: 10 or more candles.",
		Run: func(c *Ctx) {
			forSeries(c, "C03", kindsAll, c.N(2, 24), mixLens(200), func(sp *Spec, s *Series, p P, label string, r *Rng) {
				before := cloneItem(s.K, 0, s.N())
				alone := GetData(sp.New(s.Clone().K, p))
				aloneSide, _ := SideOf(sp.New(s.Clone().K, p))
				s2 := GenSeries(r, Pick(r, kindsAll), max(1, s.N()+r.Range(-8, 8)))
				if sp.MaxN > 0 && s2.N() > sp.MaxN {
					s2 = s2.Prefix(sp.MaxN)
				}
				other := Pick(r, specs)
				a := sp.New(s.K, p)
				b := sp.New(s2.K, sp.Rand(r))
				b2 := sp.New(s.K, sp.Rand(r)) // same candles, other parameters
				d := other.New(s.K, other.draw(r))
				Calc(b)
				Calc(a)
				Calc(d)
				Calc(b2)
				SideOf(b)
				SideOf(b2)
				sa, _ := SideOf(a)
				SideOf(d)
				accessors(sp, a)
				accessors(sp, b)
				got := GetData(a)
				if got.N != alone.N {
					c.Fail(sp.Name+"/isolation", label, "%d records next to another instance, %d alone", got.N, alone.N)
				} else if x := diffFrame(got, alone, alone.N, 0, 0); x != "" {
					c.Fail(sp.Name+"/isolation", label, "next to another instance the output differs: %s", x)
				}
				if !reflect.DeepEqual(sa.Data, aloneSide.Data) {
					c.Fail(sp.Name+"/isolation", label, "signals differ next to another instance")
				}
				if x := itemDiff(before, s.K); x != "" {
					c.Fail(sp.Name+"/input", label, "candles changed (indicators run: %s, %s): %s", sp.Name, other.Name, x)
				}
				if sp.NewOHLC != nil {
					o := s.K.GetOHLC()
					cp := s.K.GetOHLC()
					x := sp.NewOHLC(o, s.K, p)
					GetData(x)
					SideOf(x)
					if !reflect.DeepEqual(o, cp) {
						c.Fail(sp.Name+"/ohlc", label, "the columns handed in were changed")
					}
				}
				c.Count("candles compared", s.N())
				// the same list object after a change in place: what is reported must be that of a
				// list nobody has seen before, one candle longer and later
				if sp.Name == "SmartMoneyConcepts" {
					return
				}
				e := s.Edited(r)
				shift := int64(86400 * 7)
				if sp.Name == "Camarilla" {
					shift = 0 // its days are those of the local time zone, which a change of clocks moves
				}
				later := e.Clone()
				for _, x := range later.K.Candles {
					x.TimeUnix += shift
				}
				later = withLast(later, later.C[s.N()-1]*(1.01+0.02*r.F()))
				if sp.MaxN > 0 && later.N() > sp.MaxN {
					return
				}
				want := GetData(sp.New(later.K, p))
				for i := range want.T {
					if !want.Zero[i] {
						want.T[i] -= shift
					}
				}
				wantSide, _ := SideOf(sp.New(later.K, p))
				again := sp.New(e.K, p)
				if got := GetData(again); got.N+1 != want.N {
					c.Fail(sp.Name+"/edited", label, "%d records after the candles changed in place, %d expected", got.N, want.N-1)
				} else if x := diffFrame(got, want, got.N, 1e-9, lookFloor(sp, s)); x != "" {
					c.Fail(sp.Name+"/edited", label, "after the candles of the list changed in place the output is not that of the new candles: %s", x)
				}
				if sd, ok := SideOf(again); ok && len(wantSide.Data) > 0 && !reflect.DeepEqual(sd.Data, wantSide.Data[:len(wantSide.Data)-1]) {
					c.Fail(sp.Name+"/edited", label, "after the candles of the list changed in place the signals are not those of the new candles")
				}
				c.Count("lists changed in place and run again", 1)
			})
			taInputsUnmodified(c)
		}})

	reg(&PropDef{ID: "C04", Rule: "One case = one indicator on a series, recomputed on several prefixes; every record and signal of the prefix is compared with the full run. Non-trivial: prefix of 5 or more records.",
		Asm: []string{"SmartMoneyConcepts is outside the statement: its structure lines are drawn back to the pivot by design"},
		Run: func(c *Ctx) {
			forSeries(c, "C04", kindsAll, c.N(2, 20), func(r *Rng) int { return r.Range(20, 220) }, func(sp *Spec, s *Series, p P, label string, r *Rng) {
				if s.N() < 5 { // no prefix to speak of
					return
				}
				if sp.Name == "SmartMoneyConcepts" {
					return
				}
				full := GetData(sp.New(s.K, p))
				fs, has := SideOf(sp.New(s.K, p))
				n := s.N()
				cuts := []int{n - 1, r.Range(1, n-1), r.Range(1, n-1)}
				for _, m := range cuts {
					pre := s.Prefix(m)
					f := GetData(sp.New(pre.K, p))
					if f.N < m {
						c.Fail(sp.Name+"/short", label, "%d records for %d candles", f.N, m)
						return
					}
					if d := diffFrame(f, full, m, 1e-9, lookFloor(sp, s)); d != "" {
						c.Fail(sp.Name+"/data", label, "with %d of %d candles: %s", m, n, d)
						return
					}
					if has {
						ps, _ := SideOf(sp.New(pre.K, p))
						for i := 0; i < m && i < len(ps.Data) && i < len(fs.Data); i++ {
							if ps.Data[i] != fs.Data[i] {
								c.Fail(sp.Name+"/side", label, "signal %d is %v with %d candles and %v with %d", i, ps.Data[i], m, fs.Data[i], n)
								return
							}
						}
						c.Count("signals compared", m)
					}
					c.Count("records compared", m)
				}
			})
		}})

	reg(&PropDef{ID: "C06", Rule: "One case = one strategy (33 indicators that emit signals) on a series; plus RunStrategies over random batches. Non-trivial: 10 or more candles and at least one signal other than Hold somewhere in the family.",
		Run: func(c *Ctx) {
			seenSides := map[string]map[utils.Side]int{}
			forSeries(c, "C06", kindsAll, c.N(4, 40), mixLens(260), func(sp *Spec, s *Series, p P, label string, r *Rng) {
				o := sp.New(s.K, p)
				sd, ok := SideOf(o)
				if !ok {
					return
				}
				if seenSides[sp.Name] == nil {
					seenSides[sp.Name] = map[utils.Side]int{}
				}
				if len(sd.Data) != s.N() {
					c.Fail(sp.Name+"/count", label, "%d signals for %d candles", len(sd.Data), s.N())
					return
				}
				for i, x := range sd.Data {
					if x != utils.Buy && x != utils.Sell && x != utils.Hold {
						c.Fail(sp.Name+"/value", label, "signal %d has the value %d", i, x)
						return
					}
					seenSides[sp.Name][x]++
				}
				if !levelStrategy[sp.Name] && sd.Data[0] != utils.Hold {
					c.Fail(sp.Name+"/first", label, "first candle has no history, signal is %v", sd.Data[0])
				}
				nm := reflect.Indirect(reflect.ValueOf(o))
				if cs, ok := o.(camSide); ok {
					nm = reflect.Indirect(reflect.ValueOf(cs.Camarilla))
				}
				if f := nm.FieldByName("Name"); f.IsValid() && f.String() != sd.Name {
					c.Fail(sp.Name+"/name", label, "signals are named %q, the indicator %q", sd.Name, f.String())
				}
				if sd.Name == "" {
					c.Fail(sp.Name+"/name", label, "signals carry no name")
				}
			})
			for _, n := range sortedKeys(seenSides) {
				for s, k := range seenSides[n] {
					c.Count("signals "+n+" "+s.String(), k)
				}
			}
			// RunStrategies: same results, in order, names kept
			var strat []*Spec
			for _, sp := range specs {
				if _, ok := sp.New(GenSeries(NewRng(1, "x"), "walk", 5).K, sp.Def).(utils.IStrategy); ok {
					strat = append(strat, sp)
				}
			}
			c.Count("strategies", len(strat))
			for j := 0; j < c.N(60, 800); j++ {
				label := fmt.Sprintf("C06/run/%d", j)
				r := NewRng(c.Seed, label)
				c.Case("RunStrategies", label, func() {
					s := GenSeries(r, Pick(r, kindsAll), r.Range(1, 160))
					m := r.Range(0, 12)
					var ss []utils.IStrategy
					var want []utils.SideData
					last := ""
					if r.Chance(0.1) {
						m = r.Range(12, 150)
					}
					if r.Chance(0.01) {
						m = r.Range(200, 1200)
					}
					for k := 0; k < m; k++ {
						if k > 0 && r.Chance(0.25) { // one given before, once more
							x := r.Intn(k)
							ss, want = append(ss, ss[x]), append(want, want[x])
							continue
						}
						if r.Chance(0.1) { // a strategy of the caller's own: any answer is passed on, its type need not be comparable
							w := utils.SideData{Name: Pick(r, []string{"", "own", "Rsi14"})}
							for q := r.Intn(4) * r.Intn(60); q > 0; q-- {
								w.Data = append(w.Data, Pick(r, []utils.Side{utils.Buy, utils.Sell, utils.Hold, 77}))
							}
							ss, want = append(ss, ownStrategy{w}), append(want, w)
							c.Count("strategies of the caller's own", 1)
							continue
						}
						if k > 1 && r.Chance(0.05) { // a strategy that runs a batch itself
							x := r.Range(1, k)
							ss, want = append(ss, batchStrategy{append([]utils.IStrategy(nil), ss[:x]...)}), append(want, want[x-1])
							c.Count("batches within batches", 1)
							continue
						}
						if r.Chance(0.15) { // another list of candles
							s = GenSeries(r, Pick(r, kindsAll), r.Range(1, 160))
						}
						sp := Pick(r, strat)
						if k > 0 && r.Chance(0.25) { // one of the same kind
							for _, y := range strat {
								if y.Name == last {
									sp = y
								}
							}
						}
						last = sp.Name
						p := sp.draw(r)
						ss = append(ss, sp.New(s.K, p).(utils.IStrategy))
						w, _ := SideOf(sp.New(s.K, p))
						want = append(want, w)
					}
					given := append([]utils.IStrategy(nil), ss...)
					got := utils.RunStrategies(ss...)
					for k := range ss {
						_, a := ss[k].(ownStrategy)
						_, b := ss[k].(batchStrategy)
						if _, x := given[k].(ownStrategy); x || a || b {
							if reflect.TypeOf(ss[k]) != reflect.TypeOf(given[k]) {
								c.Fail("RunStrategies/input", label, "strategy %d of %d was replaced in the list given", k, m)
								return
							}
						} else if ss[k] != given[k] {
							c.Fail("RunStrategies/input", label, "strategy %d of %d was replaced in the list given", k, m)
							return
						}
					}
					if len(got) != m {
						c.Fail("RunStrategies/count", label, "%d results for %d strategies", len(got), m)
						return
					}
					for k := range want {
						if !reflect.DeepEqual(got[k], want[k]) {
							c.Fail("RunStrategies/result", label, "result %d of %d is %s, expected %s's own signals", k, m, got[k].Name, want[k].Name)
							return
						}
					}
					if m > 1 {
						c.Seen(hash64(label))
					}
				})
			}
			// texts of the three decisions
			c.Case("Side", "C06/text", func() {
				for s, w := range map[utils.Side]string{utils.Buy: "BUY", utils.Sell: "SELL", utils.Hold: "HOLD", utils.Side(77): "UNKNOWN"} {
					if s.String() != w {
						c.Fail("Side/String", "C06/text", "%d prints %q instead of %q", s, s.String(), w)
					}
				}
				xs := utils.Sides{utils.Hold, utils.Buy, utils.Sell, utils.Buy}
				if !reflect.DeepEqual(xs.Strings(), []string{"HOLD", "BUY", "SELL", "BUY"}) {
					c.Fail("Side/Strings", "C06/text", "%v", xs.Strings())
				}
				r := NewRng(c.Seed, "C06/text")
				for _, n := range []int{0, 1, 255, 257, 4097, 70000} {
					xs, ws := make(utils.Sides, n), make([]string, n)
					for i := range xs {
						k := r.Intn(3)
						xs[i], ws[i] = []utils.Side{utils.Buy, utils.Sell, utils.Hold}[k], []string{"BUY", "SELL", "HOLD"}[k]
					}
					if !reflect.DeepEqual(xs.Strings(), ws) {
						c.Fail("Side/Strings", "C06/text", "%d decisions do not print one by one", n)
					}
				}
			})
		}})

	reg(&PropDef{ID: "C07", Rule: "One case = one indicator on a series and on the same series with all prices multiplied by one power of two and all volumes by another (exact in floating point); outputs must scale by the documented power and signals must be identical. Non-trivial: 10 or more candles and a factor other than 1.",
		Run: func(c *Ctx) {
			forSeries(c, "C07", kindsAll, c.N(2, 20), mixLens(260), func(sp *Spec, s *Series, p P, label string, r *Rng) {
				pe, ve := r.Range(-24, 24), r.Range(-6, 20)
				if s.Kind == "micro" && pe < 0 {
					pe = -pe // prices stay above 1e-9
				}
				ps, vs := math.Ldexp(1, pe), math.Ldexp(1, ve)
				t := s.Scaled(ps, vs)
				a, b := GetData(sp.New(s.K, p)), GetData(sp.New(t.K, p))
				if a.N != b.N {
					c.Fail(sp.Name+"/count", label, "%d vs %d records", a.N, b.N)
					return
				}
				for _, col := range unionCols(a, b) {
					w, ok := sp.Pow[col]
					if !ok {
						panic("no scale rule for " + sp.Name + "." + col)
					}
					k := math.Pow(ps, w[0]) * math.Pow(vs, w[1])
					floor := 1e-9 * colScale(a.V[col]) * math.Abs(k)
					for i := 0; i < a.N; i++ {
						var x, y float64
						if v := a.V[col]; v != nil {
							x = v[i]
						}
						if v := b.V[col]; v != nil {
							y = v[i]
						}
						if !near(x*k, y, 1e-9, floor) {
							c.Fail(sp.Name+"/"+col, label, "prices x2^%d, volumes x2^%d: %s[%d] is %v, expected %v (unscaled %v)", pe, ve, col, i, y, x*k, x)
							return
						}
					}
				}
				sa, ok := SideOf(sp.New(s.K, p))
				if ok {
					sb, _ := SideOf(sp.New(t.K, p))
					if i := firstDiffSide(sa, sb); i >= 0 {
						c.Fail(sp.Name+"/side", label, "prices x2^%d, volumes x2^%d change signal %d", pe, ve, i)
					}
					c.Count("signals compared", len(sa.Data))
				}
				c.Count("records compared", a.N)
			})
		}})

	reg(&PropDef{ID: "C08", Rule: "One case = one indicator on one series of a shape that stresses denominators (flat, zero volume, monotone, ties, micro and huge prices, all others too). Non-trivial: 10 or more candles.",
		Run: func(c *Ctx) {
			forSeries(c, "C08", kindsAll, c.N(8, 60), mixLens(260), func(sp *Spec, s *Series, p P, label string, r *Rng) {
				f := GetData(sp.New(s.K, p))
				for _, col := range f.Cols {
					for i, x := range f.V[col] {
						if math.IsNaN(x) || math.IsInf(x, 0) {
							c.Fail(sp.Name+"/"+col, label, "%s[%d] = %v on a %s series of %d candles, params %v", col, i, x, s.Kind, s.N(), p)
							return
						}
					}
					c.Count("values observed", f.N)
				}
				for name, vs := range accessors(sp, sp.New(s.K, p)) {
					for _, v := range vs {
						for i, x := range v {
							if math.IsNaN(x) || math.IsInf(x, 0) {
								c.Fail(sp.Name+"/"+name, label, "%s[%d] = %v", name, i, x)
								return
							}
						}
					}
				}
			})
		}})

	reg(&PropDef{ID: "C10", Rule: "One case = one indicator, list operation or array function on an empty or 1..40 candle series with default and random parameters, including periods longer than the series. Non-trivial: period exceeds the series or the series is empty (counted by indicator, length and parameters).",
		Run: func(c *Ctx) {
			for _, sp := range specs {
				for n := 0; n <= 40; n++ {
					if n > 6 && !c.Thorough() && n%3 != 0 {
						continue
					}
					for j := 0; j < c.N(3, 12); j++ {
						label := fmt.Sprintf("C10/%s/%d/%d", sp.Name, n, j)
						r := NewRng(c.Seed, label)
						c.Case(sp.Name, label, func() {
							s := GenSeries(r, Pick(r, kindsAll), n)
							p := sp.Def
							if j > 0 {
								p = sp.Rand(r)
							}
							o := sp.New(s.K, p)
							f := GetData(o)
							if f.N != n {
								c.Fail(sp.Name+"/count", label, "%d records for %d candles", f.N, n)
							}
							sd, ok := SideOf(sp.New(s.K, p))
							if ok && len(sd.Data) != n {
								c.Fail(sp.Name+"/sides", label, "%d signals for %d candles", len(sd.Data), n)
							}
							for name, vs := range accessors(sp, sp.New(s.K, p)) {
								for _, v := range vs {
									if len(v) != n {
										c.Fail(sp.Name+"/"+name, label, "%d values for %d candles", len(v), n)
									}
								}
							}
							Calc(sp.New(s.K, p))
							if sp.NewDef != nil {
								GetData(sp.NewDef(s.K))
							}
							if sp.NewOHLC != nil {
								GetData(sp.NewOHLC(s.K.GetOHLC(), s.K, p))
							}
							c.Seen(hash64(label))
							c.Count("indicator runs", 1)
						})
					}
				}
			}
			shortExtras(c)
		}})

	reg(&PropDef{ID: "C11", Rule: "One case = one indicator built from candles and from the columns extracted from them, records and signals compared. Non-trivial: 10 or more candles.",
		Run: func(c *Ctx) {
			forSeries(c, "C11", kindsAll, c.N(10, 100), mixLens(300), func(sp *Spec, s *Series, p P, label string, r *Rng) {
				if sp.NewDef != nil && r.Chance(0.5) {
					fieldsMatch(c, sp, s, p, label)
				}
				if sp.NewOHLC == nil {
					// the default constructor must equal the explicit one with the documented defaults
					if sp.NewDef != nil {
						defaultsMatch(c, sp, s, label)
						c.Count("default constructors compared", 1)
					}
					return
				}
				a := sp.New(s.K, p)
				b := sp.NewOHLC(s.K.GetOHLC(), s.K, p)
				fa, fb := GetData(a), GetData(b)
				if fa.N != fb.N {
					c.Fail(sp.Name+"/count", label, "%d records from candles, %d from columns", fa.N, fb.N)
					return
				}
				if d := diffFrame(fa, fb, fa.N, 1e-9, 1e-9*s.Scale); d != "" {
					c.Fail(sp.Name+"/data", label, "candles vs columns: %s", d)
					return
				}
				sa, ok := SideOf(a)
				sb, ok2 := SideOf(b)
				if ok && ok2 {
					if i := firstDiffSide(sa, sb); i >= 0 {
						c.Fail(sp.Name+"/side", label, "candles vs columns: signal %d differs (%d vs %d signals)", i, len(sa.Data), len(sb.Data))
					}
				}
				x, y := accessors(sp, a), accessors(sp, b)
				for _, nm := range sortedKeys(x) {
					if !sameAcc(x[nm], y[nm]) {
						c.Fail(sp.Name+"/"+nm, label, "candles vs columns: %s differs", nm)
					}
				}
				if sp.NewDef != nil {
					defaultsMatch(c, sp, s, label)
				}
				c.Count("records compared", fa.N)
			})
		}})
}

// defaultsMatch: the default constructor is the explicit one with the documented defaults, in records and signals.
func defaultsMatch(c *Ctx, sp *Spec, s *Series, label string) {
	x, y := sp.NewDef(s.K), sp.New(s.K, sp.Def)
	a, b := GetData(x), GetData(y)
	if a.N != b.N {
		c.Fail(sp.Name+"/default", label, "%d vs %d records", a.N, b.N)
		return
	}
	if d := diffFrame(a, b, a.N, 1e-9, 0); d != "" {
		c.Fail(sp.Name+"/default", label, "default constructor differs from the documented defaults %v: %s", sp.Def, d)
		return
	}
	sx, ok := SideOf(x)
	sy, ok2 := SideOf(y)
	if ok && ok2 {
		if i := firstDiffSide(sx, sy); i >= 0 {
			c.Fail(sp.Name+"/default", label, "default constructor vs the documented defaults %v: signal %d differs (%d vs %d signals)", sp.Def, i, len(sx.Data), len(sy.Data))
		}
	}
}

// fieldsMatch: parameters set in the exported fields before the first reading are the parameters.
func fieldsMatch(c *Ctx, sp *Spec, s *Series, p P, label string) {
	x, y := sp.NewDef(s.K), sp.New(s.K, p)
	how := "before its first reading"
	late := len(label)%2 == int(s.T[0]/60)%2
	if late {
		how = "after a reading, then recalculated"
		GetData(x)
		SideOf(x)
	}
	if !copyParams(x, y) {
		return
	}
	if late {
		Calc(x)
	}
	a, b := GetData(x), GetData(y)
	if a.N != b.N {
		c.Fail(sp.Name+"/fields", label, "parameters set in the fields: %d records, built with them: %d", a.N, b.N)
		return
	}
	if d := diffFrame(a, b, a.N, 1e-9, 0); d != "" {
		c.Fail(sp.Name+"/fields", label, "parameters %v set in the fields of a default one %s: %s", p, how, d)
		return
	}
	sx, ok := SideOf(x)
	sy, ok2 := SideOf(y)
	if ok && ok2 {
		if i := firstDiffSide(sx, sy); i >= 0 {
			c.Fail(sp.Name+"/fields", label, "parameters %v set in the fields of a default one %s: signal %d differs", p, how, i)
		}
	}
	c.Count("parameters set in the fields "+how, 1)
}

// copyParams copies the exported scalar fields of one indicator to another of its type.
func copyParams(to, from any) bool {
	a, b := reflect.ValueOf(to), reflect.ValueOf(from)
	if a.Kind() != reflect.Pointer || a.Type() != b.Type() {
		return false
	}
	a, b = a.Elem(), b.Elem()
	for i := 0; i < a.NumField(); i++ {
		switch f := a.Field(i); f.Kind() {
		case reflect.Int, reflect.Int64, reflect.Float64, reflect.Bool, reflect.String, reflect.Uint32, reflect.Uint8:
			if f.CanSet() {
				f.Set(b.Field(i))
			}
		}
	}
	return true
}

// strategies that judge the level of the current record rather than a change (no history needed)
var levelStrategy = map[string]bool{"ProjectionOscillator": true}

func lookFloor(sp *Spec, s *Series) float64 { return 1e-12 }

func colScale(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		if a := math.Abs(x); a > m && !math.IsInf(a, 0) {
			m = a
		}
	}
	return m
}

func firstDiffSide(a, b utils.SideData) int {
	for i := range a.Data {
		if i >= len(b.Data) || a.Data[i] != b.Data[i] {
			return i
		}
	}
	if len(b.Data) > len(a.Data) {
		return len(a.Data)
	}
	return -1
}

func sameAcc(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !near(a[i][j], b[i][j], 1e-12, 0) {
				return false
			}
		}
	}
	return true
}

func itemDiff(a, b *klines.Item) string {
	if len(a.Candles) != len(b.Candles) {
		return fmt.Sprintf("%d candles became %d", len(a.Candles), len(b.Candles))
	}
	if a.Exchange != b.Exchange || a.Symbol != b.Symbol || a.Code != b.Code || a.Interval != b.Interval {
		return "header changed"
	}
	for i := range a.Candles {
		if !reflect.DeepEqual(a.Candles[i], b.Candles[i]) {
			return fmt.Sprintf("candle %d changed from %+v to %+v", i, *a.Candles[i], *b.Candles[i])
		}
	}
	return ""
}

// ownStrategy answers what it is told to; batchStrategy answers the last result of a batch.
type ownStrategy struct{ d utils.SideData }

func (o ownStrategy) AnalysisSide() utils.SideData { return o.d }

type batchStrategy struct{ in []utils.IStrategy }

func (b batchStrategy) AnalysisSide() utils.SideData {
	d := utils.RunStrategies(b.in...)
	return d[len(d)-1]
}
