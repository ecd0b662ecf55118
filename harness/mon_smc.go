package main

import (
	"fmt"
	"math"
	"slices"
	"sync/atomic"
	"time"

	"github.com/idoall/stockindicator/trend"
)

// C26: market-structure labels. The model below keeps pivots as candle indices, and
// labels as events; it is written from the Pine script that the indicator follows.

type smcPivot struct {
	idx  int // -1: none yet
	open bool
}

type smcBlock struct {
	top bool
	idx int
}

type smcModel struct {
	ambiguous bool
	lines     map[string][]float64
	internal  []smcBlock
	swing     []smcBlock
	sh, wh    [2]float64 // index, price (index -1: unset)
	sl, wl    [2]float64
	nHigh     bool // a swing high has been confirmed
	nLow      bool
	events    map[string]int
}

func smcRun(s *Series, L, bars, thr int, eq bool, number int) *smcModel {
	n := s.N()
	m := &smcModel{lines: map[string][]float64{}, sh: [2]float64{-1, 0}, wh: [2]float64{-1, 0}, sl: [2]float64{-1, 0}, wl: [2]float64{-1, 0}, events: map[string]int{}}
	for _, k := range []string{"HighBOSShort", "HighCHoCHShort", "HighBOSLong", "HighCHoCHLong", "LowBOSShort", "LowChoCHShort", "LowBOSLong", "LowChoCHLong", "EQH", "EQL"} {
		m.lines[k] = make([]float64, n)
	}
	// average true range over 200 candles: zero before candle 200
	atr := make([]float64, n)
	if n > 200 {
		w := rRma(rTR(s.H, s.L, s.C, false), 200)
		copy(atr[200:], w[200:])
	}
	less := func(a, b float64) bool { // a < b, where b carries rounding
		if a != b && math.Abs(a-b) <= 1e-9*s.Scale || a == b && b != 0 && a != 0 {
			m.ambiguous = true
		}
		return a < b
	}
	draw := func(col string, from, to int, v float64) {
		for j := from; j <= to; j++ {
			m.lines[col][j] = v
		}
		m.events[col]++
	}
	price := func(a []float64, p smcPivot) float64 {
		if p.idx < 0 {
			return 0
		}
		return a[p.idx]
	}
	// leg of a pivot scale: +1 after a low pivot was confirmed, 0 after a high one (and at the start)
	confirm := func(len_, i int, leg *int) (hi, lo bool) {
		j := i - len_
		if j < 0 {
			return
		}
		top, bot := true, true
		for k := j + 1; k <= i; k++ {
			top = top && s.H[j] > s.H[k]
			bot = bot && s.L[j] < s.L[k]
		}
		switch {
		case top:
			hi = *leg == 1
			*leg = 0
		case bot:
			lo = *leg == 0
			*leg = 1
		}
		return
	}
	block := func(bearish bool, from, i int) smcBlock {
		best := -1
		for j := i; j >= from; j-- {
			if !less(s.H[j]-s.L[j], 2*atr[j]) {
				continue
			}
			if best < 0 || bearish && s.H[j] >= s.H[best] || !bearish && s.L[j] <= s.L[best] {
				best = j
			}
		}
		if best < 0 {
			best = i - 1
			m.events["order block without a candle of ordinary range"]++
		}
		return smcBlock{bearish, best}
	}
	push := func(l []smcBlock, b smcBlock) []smcBlock {
		if slices.Contains(l, b) {
			return l
		}
		for _, o := range l { // two candles under one time: which of them a block names is open
			m.ambiguous = m.ambiguous || o.top == b.top && s.T[o.idx] == s.T[b.idx]
		}
		return append([]smcBlock{b}, l...)
	}
	legS, legI := 0, 0
	hiS, loS, hiI, loI := smcPivot{-1, true}, smcPivot{-1, true}, smcPivot{-1, true}, smcPivot{-1, true}
	trendS, trendI := 0, 0
	up, dn := [2]float64{-1, 0}, [2]float64{-1, 0}
	eqH, eqL := -1, -1
	if n > 1 {
		up, dn = [2]float64{1, s.H[1]}, [2]float64{1, s.L[1]}
	}
	for i := 1; i < n; i++ {
		if i < L {
			continue
		}
		hs, ls := confirm(L, i, &legS)
		hi, li := confirm(5, i, &legI)
		if hs {
			hiS = smcPivot{i - L, true}
			up = [2]float64{float64(i - L), s.H[i-L]}
			m.nHigh = true
			m.events["swing high"]++
		}
		if hi {
			hiI = smcPivot{i - 5, true}
			m.events["internal high"]++
		}
		if s.H[i] >= up[1] {
			up = [2]float64{float64(i), s.H[i]}
		}
		if ls {
			loS = smcPivot{i - L, true}
			dn = [2]float64{float64(i - L), s.L[i-L]}
			m.nLow = true
			m.events["swing low"]++
		}
		if li {
			loI = smcPivot{i - 5, true}
			m.events["internal low"]++
		}
		if s.L[i] <= dn[1] {
			dn = [2]float64{float64(i), s.L[i]}
		}
		over := func(p smcPivot) bool { l := price(s.H, p); return p.idx >= 0 && s.C[i] > l && s.C[i-1] < l }
		under := func(p smcPivot) bool { l := price(s.L, p); return p.idx >= 0 && s.C[i] < l && s.C[i-1] > l }
		if over(hiI) && hiI.open && price(s.H, hiS) != price(s.H, hiI) {
			col := "HighBOSShort"
			if trendI < 0 {
				col = "HighCHoCHShort"
			}
			draw(col, hiI.idx, i, s.H[hiI.idx])
			hiI.open, trendI = false, 1
			m.internal = push(m.internal, block(false, hiI.idx, i))
		}
		if over(hiS) && hiS.open {
			col := "HighBOSLong"
			if trendS < 0 {
				col = "HighCHoCHLong"
			}
			draw(col, hiS.idx, i, s.H[hiS.idx])
			hiS.open, trendS = false, 1
			m.swing = push(m.swing, block(false, hiS.idx, i))
		}
		if under(loI) && loI.open && price(s.L, loS) != price(s.L, loI) {
			col := "LowBOSShort"
			if trendI > 0 {
				col = "LowChoCHShort"
			}
			draw(col, loI.idx, i, s.L[loI.idx])
			loI.open, trendI = false, -1
			m.internal = push(m.internal, block(true, loI.idx, i))
		}
		if under(loS) && loS.open {
			col := "LowBOSLong"
			if trendS > 0 {
				col = "LowChoCHLong"
			}
			draw(col, loS.idx, i, s.L[loS.idx])
			loS.open, trendS = false, -1
			m.swing = push(m.swing, block(true, loS.idx, i))
		}
		// blocks that price has broken, or that are beyond the number kept, go
		keep := func(l []smcBlock) []smcBlock {
			var out []smcBlock
			for j, b := range l {
				broken := !b.top && s.C[i] < s.L[b.idx] || b.top && s.C[i] > s.H[b.idx]
				if broken {
					m.events["order block broken"]++
				} else if j >= number {
					m.events["order block displaced"]++
				} else {
					out = append(out, b)
				}
			}
			return out
		}
		m.internal, m.swing = keep(m.internal), keep(m.swing)
		if eq && i >= 2*bars {
			j := i - bars
			isH, isL := true, true
			for k := i - 2*bars; k <= i; k++ {
				isH = isH && s.H[k] <= s.H[j]
				isL = isL && s.L[k] >= s.L[j]
			}
			band := atr[i] * float64(thr) / 10
			if isH {
				if eqH >= 0 && less(math.Abs(s.H[j]-s.H[eqH]), band) {
					draw("EQH", eqH, j, s.H[eqH])
				}
				eqH = j
			}
			if isL {
				if eqL >= 0 && less(math.Abs(s.L[j]-s.L[eqL]), band) {
					draw("EQL", eqL, j, s.L[eqL])
				}
				eqL = j
			}
		}
		if trendS < 0 {
			m.sh = up
		} else {
			m.wh = up
		}
		if trendS > 0 {
			m.sl = dn
		} else {
			m.wl = dn
		}
	}
	return m
}

func smcCase(c *Ctx, r *Rng, label, kind string) {
	L := Pick(r, []int{5, 6, 8, 10, 15, 20, 30, 50, r.Range(5, 60)})
	if r.Chance(0.1) {
		L = r.Range(1, 4)
	}
	bars, thr, eq := r.Range(1, 6), r.Range(1, 5), r.Chance(0.4)
	n := sometimesLong(r, r.Range(40, 700), 0.03, 2200)
	if r.Chance(0.08) {
		n = Pick(r, shortLens)
	}
	if eq {
		n = r.Range(40, 340)
	}
	if n < L+2 && r.Chance(0.8) {
		n += L
	}
	s := GenSeries(r, kind, n)
	number := 5
	if r.Chance(0.3) {
		number = r.Range(1, 12)
	}
	ctx := fmt.Sprintf("%d %s candles, swing length %d, equal highs/lows %v over %d bars at threshold %d, %d blocks", s.N(), kind, L, eq, bars, thr, number)
	in := s.Clone()
	var m *trend.SmartMoneyConcepts
	if r.Chance(0.3) {
		m = trend.NewSmartMoneyConceptsOHLC(in.O, in.H, in.L, in.C, in.T, L, bars, thr)
	} else {
		m = trend.NewSmartMoneyConcepts(in.K, L, bars, thr)
	}
	m.EQHEQL_Enable = eq
	if number != 5 { // five is the default
		m.OrderBlockNumber = number
	}
	c.Evals++
	if r.Chance(0.2) { // a used, or used and cleared, indicator answers like a new one
		m.Calculation()
		if r.Chance(0.5) {
			m.Clear()
		}
		m.Calculation()
	}
	data := m.Calculation().GetData()
	want := smcRun(s, L, bars, thr, eq, number)
	if len(data) != s.N() {
		c.Fail("count", label, "%s: %d records", ctx, len(data))
		return
	}
	if want.ambiguous {
		c.Skip("a range equal to its threshold up to rounding, or blocks at two candles with one time")
		return
	}
	get := map[string]func(d *trend.SmartMoneyConceptsData) float64{
		"HighBOSShort":   func(d *trend.SmartMoneyConceptsData) float64 { return d.HighBOSShort },
		"HighCHoCHShort": func(d *trend.SmartMoneyConceptsData) float64 { return d.HighCHoCHShort },
		"HighBOSLong":    func(d *trend.SmartMoneyConceptsData) float64 { return d.HighBOSLong },
		"HighCHoCHLong":  func(d *trend.SmartMoneyConceptsData) float64 { return d.HighCHoCHLong },
		"LowBOSShort":    func(d *trend.SmartMoneyConceptsData) float64 { return d.LowBOSShort },
		"LowChoCHShort":  func(d *trend.SmartMoneyConceptsData) float64 { return d.LowChoCHShort },
		"LowBOSLong":     func(d *trend.SmartMoneyConceptsData) float64 { return d.LowBOSLong },
		"LowChoCHLong":   func(d *trend.SmartMoneyConceptsData) float64 { return d.LowChoCHLong },
		"EQH":            func(d *trend.SmartMoneyConceptsData) float64 { return d.EQH },
		"EQL":            func(d *trend.SmartMoneyConceptsData) float64 { return d.EQL },
	}
	for _, col := range sortedKeys(get) {
		for i := range data {
			if g := get[col](&data[i]); g != want.lines[col][i] {
				c.Fail("line/"+col, label, "%s: %s[%d] = %v, expected %v", ctx, col, i, g, want.lines[col][i])
				break
			}
		}
	}
	for i := range data {
		if data[i].Time.Unix() != s.T[i] {
			c.Fail("time", label, "%s: record %d at %v", ctx, i, data[i].Time)
			break
		}
	}
	blocks := func(name string, got trend.SmartMoneyConceptsDataOrderBlockList, want []smcBlock) {
		if len(got) > number {
			c.Fail("blocks/"+name+"/number", label, "%s: %d %s order blocks", ctx, len(got), name)
		}
		if len(got) != len(want) {
			c.Fail("blocks/"+name, label, "%s: %d %s order blocks, expected %d", ctx, len(got), name, len(want))
			return
		}
		for j, b := range want {
			exp := trend.SmartMoneyConceptsDataOrderBlock{IsTop: b.top, Time: time.Unix(s.T[b.idx], 0), Open: s.O[b.idx], Close: s.C[b.idx], High: s.H[b.idx], Low: s.L[b.idx]}
			if g := got[j]; !g.Time.Equal(exp.Time) || g.IsTop != exp.IsTop || g.Open != exp.Open || g.Close != exp.Close || g.High != exp.High || g.Low != exp.Low {
				c.Fail("blocks/"+name, label, "%s: %s order block %d is %+v, expected candle %d, bearish %v", ctx, name, j, g, b.idx, b.top)
				return
			}
		}
		c.Count("order blocks compared", len(want))
	}
	blocks("internal", m.OrderBlockBullish, want.internal)
	blocks("swing", m.OrderBlockBearish, want.swing)
	extreme := func(name string, got trend.SmartMoneyConceptsDataStrongWeak, w [2]float64) {
		if w[0] < 0 {
			if got.Value != 0 || !got.Time.IsZero() {
				c.Fail("extreme/"+name, label, "%s: %s is %+v, expected unset", ctx, name, got)
			}
			return
		}
		if got.Value != w[1] || got.Time.Unix() != s.T[int(w[0])] {
			c.Fail("extreme/"+name, label, "%s: %s is %v at %v, expected %v at candle %v", ctx, name, got.Value, got.Time.Unix(), w[1], w[0])
		}
	}
	extreme("strong high", m.StrongHigh, want.sh)
	extreme("weak high", m.WeakHigh, want.wh)
	extreme("strong low", m.StrongLow, want.sl)
	extreme("weak low", m.WeakLow, want.wl)
	for k, v := range want.events {
		c.Count(k, v)
	}
	if len(want.events) > 4 {
		c.Seen(hash64(label, L, s.C))
	}
	c.Sample(map[string]any{"case": ctx, "events": want.events})
}

var smcListSeq atomic.Int64

// smcListCase drives the order-block list as a set keyed by side and time.
func smcListCase(c *Ctx, r *Rng, label string) {
	var l trend.SmartMoneyConceptsDataOrderBlockList
	var model []smcBlock
	mk := func(b smcBlock) trend.SmartMoneyConceptsDataOrderBlock {
		smcListSeq.Add(1)
		return trend.SmartMoneyConceptsDataOrderBlock{IsTop: b.top, Time: time.Unix(int64(b.idx), 0), Close: float64(b.idx), High: float64(b.idx) + 1}
	}
	c.Evals++
	for st := 0; st < 60; st++ {
		b := smcBlock{r.Chance(0.5), r.Range(1, 8)}
		before := append(trend.SmartMoneyConceptsDataOrderBlockList(nil), l...)
		held := l
		at := slices.Index(model, b)
		if g := l.Contains(mk(b)); g != (at >= 0) {
			c.Fail("list/contains", label, "step %d: Contains(%v) = %v of %v", st, b, g, model)
			return
		}
		if r.Chance(0.55) {
			l = l.Add(mk(b))
			if at < 0 {
				model = append([]smcBlock{b}, model...)
			}
		} else {
			l = l.Remove(mk(b))
			if at >= 0 {
				model = slices.Delete(slices.Clone(model), at, at+1)
			}
		}
		if !slices.Equal(held, before) {
			c.Fail("list/shared", label, "step %d: the list held before the operation changed", st)
			return
		}
		ok := len(l) == len(model)
		for j := 0; ok && j < len(l); j++ {
			ok = l[j].IsTop == model[j].top && l[j].Time.Unix() == int64(model[j].idx)
		}
		if !ok {
			c.Fail("list/content", label, "step %d with %v: list %+v, expected %v", st, b, l, model)
			return
		}
	}
	c.Count("order-block list steps", 60)
	c.Seen(hash64(label))
}

func init() {
	reg(&PropDef{ID: "C26",
		Rule: "a generated candle series with swing length, equal-level settings and block count, on which at least five kinds of structure event occurred",
		Asm:  []string{"a case is abandoned when a candle range or a high-to-high distance equals its threshold up to rounding"},
		Run: func(c *Ctx) {
			for _, kd := range kindsAll {
				for j := 0; j < c.N(10, 150); j++ {
					label := fmt.Sprintf("C26/%s/%d", kd, j)
					if c.Only == "" || c.Only == label {
						c.Case("smc", label, func() { smcCase(c, NewRng(c.Seed, label), label, kd) })
					}
				}
			}
			for j := 0; j < c.N(200, 4000); j++ {
				label := fmt.Sprintf("C26/list/%d", j)
				if c.Only == "" || c.Only == label {
					c.Case("list", label, func() { smcListCase(c, NewRng(c.Seed, label), label) })
				}
			}
		}})
}
