package main

import "math"

// Reference models of the indicators, from candles to records.

type refFn func(s *Series, p P) *RefOut

func out(kv ...any) *RefOut {
	o := &RefOut{V: map[string][]float64{}, Floor: map[string]float64{}}
	for i := 0; i < len(kv); i += 2 {
		o.V[kv[i].(string)] = kv[i+1].([]float64)
	}
	return o
}

// floorAll sets one absolute tolerance for every column.
func (o *RefOut) floorAll(x float64) *RefOut {
	for c := range o.V {
		o.Floor[c] = x
	}
	return o
}

// cutter watches the comparisons a state machine decides on; a comparison of
// two values that are equal up to rounding cannot be decided by a model, so the
// run is only compared before it.
//
// exact: a tie here is a tie of unrounded numbers, so it decides; known: both numbers are
// inputs or values the indicator itself reported, so any difference decides.
type cutter struct {
	at           int
	exact, known bool
}

func (k *cutter) over(i int, a, b float64) bool {
	if k.known {
		return a > b
	}
	return k.gt(i, a, b, k.exact)
}

func (k *cutter) gt(i int, a, b float64, exactTie bool) bool {
	if a == b {
		if !exactTie {
			k.mark(i)
		}
		return false
	}
	if math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b)) {
		k.mark(i)
	}
	return a > b
}
func (k *cutter) mark(i int) {
	if k.at == 0 {
		k.at = max(i, 1)
	}
}

func atrTA(s *Series, p int) []float64 {
	n := s.N()
	o := mk(n)
	tr := rTR(s.H, s.L, s.C, false)
	if p == 1 {
		return tr
	}
	if n <= p {
		return o
	}
	r := rRma(tr, p)
	for i := p; i < n; i++ {
		o[i] = r[i]
	}
	return o
}

func setRef(name string, f refFn) { specBy[name].Ref = f }

// setStep sets the model of an indicator whose own reported values are the state of its
// recurrence. With a recorded output the model takes each step from what was reported for
// the candle before, so comparisons are exact and rounding never accumulates.
func setStep(name string, f func(s *Series, p P, rep *Frame) *RefOut) {
	specBy[name].Ref = func(s *Series, p P) *RefOut { return f(s, p, nil) }
	specBy[name].Step = f
}

func (f *Frame) at(col string, i int) float64 {
	if v := f.V[col]; i < len(v) {
		return v[i]
	}
	return 0
}

func init() {
	price := func(o *RefOut, s *Series) *RefOut { return o.floorAll(1e-9 * s.Scale) }

	// --- moving averages
	setRef("Sma", func(s *Series, p P) *RefOut { return price(out("Value", rSma(s.C, p.I(0))), s) })
	setRef("Ma", func(s *Series, p P) *RefOut { return price(out("Value", rSma(s.C, p.I(0))), s) })
	setRef("Ema", func(s *Series, p P) *RefOut { return price(out("Value", rEma(s.C, p.I(0))), s) })
	setRef("Rma", func(s *Series, p P) *RefOut { return price(out("Value", rRma(s.C, p.I(0))), s) })
	setRef("Dema", func(s *Series, p P) *RefOut {
		e := rEma(s.C, p.I(0))
		e2 := rEma(e, p.I(0))
		return price(out("Value", zip(e, e2, func(a, b float64) float64 { return 2*a - b })), s)
	})

	// --- extremes
	setRef("DonchianChannel", func(s *Series, p P) *RefOut {
		u, l := rMax(s.C, p.I(0)), rMin(s.C, p.I(0))
		return price(out("Upper", u, "Lower", l, "Middle", zip(u, l, func(a, b float64) float64 { return (a + b) / 2 })), s)
	})
	setRef("IchimokuCloud", func(s *Series, p P) *RefOut {
		mid := func(w int) []float64 {
			return zip(rMax(s.H, w), rMin(s.L, w), func(a, b float64) float64 { return (a + b) / 2 })
		}
		cv, bs := mid(p.I(0)), mid(26)
		return price(out("ConversionLine", cv, "BaseLine", bs,
			"LeadingSpanA", zip(cv, bs, func(a, b float64) float64 { return (a + b) / 2 }),
			"LeadingSpanB", mid(p.I(1)), "LaggingLine", rShift(s.C, p.I(2), 0)), s)
	})

	// --- volatility
	setRef("Atr", func(s *Series, p P) *RefOut {
		tr := rTR(s.H, s.L, s.C, true)
		return price(out("TR", tr, "Atr", rRma(tr, p.I(0))), s)
	})
	setRef("Boll", func(s *Series, p P) *RefOut {
		mid := rSma(s.C, p.I(0))
		md := rollFull(s.C, p.I(0), func(w []float64) float64 { return math.Sqrt(rPopVar(w)) })
		k := p[1]
		o := out("Middle", mid, "MD", md,
			"Upper", zip(mid, md, func(a, b float64) float64 { return a + k*b }),
			"Lower", zip(mid, md, func(a, b float64) float64 { return a - k*b }))
		// the variance may be taken as E[x^2]-E[x]^2: its rounding is about 1e-12 of the squared price
		return o.floorAll(1e-6 * s.Scale * (1 + k))
	})
	setRef("KeltnerChannel", func(s *Series, p P) *RefOut {
		m := rEma(s.C, p.I(0))
		a := rRma(rTR(s.H, s.L, s.C, true), p.I(0))
		return price(out("Middle", m, "Upper", zip(m, a, func(x, y float64) float64 { return x + 2*y }),
			"Lower", zip(m, a, func(x, y float64) float64 { return x - 2*y })), s)
	})
	setRef("UlcerIndex", func(s *Series, p P) *RefOut {
		hi := rMax(s.C, p.I(0))
		d := zip(s.C, hi, func(c, h float64) float64 { x := 100 * (c - h) / h; return x * x })
		return out("Value", mapv(rSma(d, p.I(0)), math.Sqrt)).floorAll(1e-5)
	})

	// --- bounded oscillators
	setRef("Rsi", func(s *Series, p P) *RefOut { return out("Value", rRsi(s.C, p.I(0))).floorAll(1e-6) })
	setRef("StochasticOscillator", func(s *Series, p P) *RefOut {
		k := rStoch(s.C, s.H, s.L, p.I(0))
		return out("K", k, "D", rSma(k, 3)).floorAll(1e-6)
	})
	setRef("WilliamsR", func(s *Series, p P) *RefOut {
		hi, lo := rMax(s.H, p.I(0)), rMin(s.L, p.I(0))
		o := mk(s.N())
		for i := range o {
			o[i] = -safeDiv((hi[i]-s.C[i])*100, hi[i]-lo[i])
			if o[i] == 0 {
				o[i] = 0
			}
		}
		return out("Value", o).floorAll(1e-6)
	})
	setRef("Kdj", func(s *Series, p P) *RefOut {
		n := s.N()
		rsv, k, d, j := mk(n), mk(n), mk(n), mk(n)
		hi, lo := rMax(s.H, p.I(0)), rMin(s.L, p.I(0))
		pk, pd := 50.0, 50.0
		for i := 0; i < n; i++ {
			k[i], d[i] = 50, 50
			if i >= p.I(0)-1 {
				rsv[i] = 100
				if r := hi[i] - lo[i]; r > 0 {
					rsv[i] = 100 * (s.C[i] - lo[i]) / r
				}
				k[i] = pk*2/3 + rsv[i]/3
				d[i] = pd*2/3 + k[i]/3
			}
			pk, pd = k[i], d[i]
			j[i] = 3*k[i] - 2*d[i]
		}
		return out("RSV", rsv, "K", k, "D", d, "J", j).floorAll(1e-6)
	})
	setRef("StochRsi", func(s *Series, p P) *RefOut {
		r := rRsi(s.C, p.I(2))
		hi, lo := rMax(r, p.I(3)), rMin(r, p.I(3))
		k := mk(s.N())
		own := GetData(specBy["Rsi"].New(s.K, P{p[2]})).V["Value"]
		if len(own) != s.N() {
			own = r
		}
		oh, ol := rMax(own, p.I(3)), rMin(own, p.I(3))
		for i := range k {
			g := hi[i] - lo[i]
			switch {
			case g == 0 && (hi[i] == 0 || hi[i] == 100) && oh[i] == ol[i]: // the published RSI does not move by a rounding step either
			case g < 1e-6:
				k[i] = nan // the RSI barely moves: the ratio is rounding noise
			default:
				k[i] = 100 * (r[i] - lo[i]) / g
			}
		}
		ks := rEma(k, p.I(0))
		return out("K", ks, "D", rEma(ks, p.I(1))).floorAll(1e-4)
	})
	setRef("Cci", func(s *Series, p P) *RefOut {
		tp := rHLC3(s)
		period, sp := p.I(0), p.I(1)
		m := rSma(tp, sp)
		dev := mk(s.N())
		for i := period - 1; i < s.N(); i++ {
			for _, x := range win(tp, i, period) {
				dev[i] += math.Abs(x-m[i]) / float64(period)
			}
		}
		return out("Value", rCCI(tp, period, m, dev, s, false)).floorAll(1e-3)
	})
	setRef("AiCoinCCI", func(s *Series, p P) *RefOut {
		m := rollFull(s.C, p.I(0), meanOf)
		dev := rollFull(s.C, p.I(0), rMeanDev)
		return out("Value", rCCI(s.C, p.I(0), m, dev, s, true)).floorAll(1e-3)
	})
	setRef("ProjectionOscillator", func(s *Series, p P) *RefOut {
		n := s.N()
		vh, vl := mk(n), mk(n)
		for i := 0; i < n; i++ {
			mh, _ := rLine(win(s.H, i, p.I(0)))
			ml, _ := rLine(win(s.L, i, p.I(0)))
			vh[i] = s.H[i] + mh*float64(i)
			vl[i] = s.L[i] + ml*float64(i)
		}
		pu, pl := rMax(vh, p.I(0)), rMin(vl, p.I(0))
		po := mk(n)
		for i := range po {
			// least squares over the candle number lose digits with the square of that number, and a narrow
			// channel magnifies what is lost: no verdict where that can reach the tolerance
			big := math.Max(s.Scale, math.Max(math.Abs(pu[i]), math.Abs(pl[i])))
			d := pu[i] - pl[i]
			po[i] = 100 * (s.C[i] - pl[i]) / d
			eps := 1e-12 + 5e-14*float64(i)*float64(i)/(p[0]*p[0])
			if math.Abs(d) < 1e-3*big || (100+math.Abs(po[i]))*big/math.Abs(d)*eps > 2e-3 {
				po[i] = nan
			}
		}
		return out("Po", po, "Spo", rEma(po, p.I(1))).floorAll(1e-2)
	})

	// --- differences of averages
	setRef("Macd", func(s *Series, p P) *RefOut {
		dif := rSub(rEma(s.C, p.I(0)), rEma(s.C, p.I(2)))
		dea := rEma(dif, p.I(1))
		return price(out("DIF", dif, "DEA", dea, "Macd", zip(dif, dea, func(a, b float64) float64 { return 2 * (a - b) })), s)
	})
	setRef("PercentagePriceOscillator", func(s *Series, p P) *RefOut {
		f, l := rEma(s.C, p.I(0)), rEma(s.C, p.I(1))
		ppo := zip(f, l, func(a, b float64) float64 { return 100 * (a - b) / b })
		sg := rEma(ppo, p.I(2))
		return out("PPO", ppo, "Signal", sg, "Histogram", rSub(ppo, sg)).floorAll(1e-7)
	})
	setRef("VolumeOscillator", func(s *Series, p P) *RefOut {
		f, l := rEma(s.V, p.I(0)), rEma(s.V, p.I(1))
		o := mk(s.N())
		for i := range o {
			if f[i] == 0 && l[i] == 0 {
				continue
			}
			o[i] = 100 * (f[i] - l[i]) / l[i]
			if l[i] < 1e-200 {
				o[i] = nan
			}
		}
		return out("Value", o).floorAll(1e-6)
	})
	setRef("AbsolutePriceOscillator", func(s *Series, p P) *RefOut {
		return price(out("Value", rSub(rEma(s.C, 14), rEma(s.C, 30))), s)
	})
	setRef("AwesomeOscillator", func(s *Series, p P) *RefOut {
		m := rHL2(s)
		return price(out("Value", rSub(rSma(m, 5), rSma(m, 34))), s)
	})
	setRef("ChaikinOscillator", func(s *Series, p P) *RefOut {
		ad := rAD(s)
		return out("Value", rSub(rEma(ad, p.I(0)), rEma(ad, p.I(1))), "AD", ad).floorAll(1e-9 * (colScale(ad) + sumOf(s.V)))
	})

	// --- volume
	setRef("AccumulationDistribution", func(s *Series, p P) *RefOut {
		return out("Value", rAD(s)).floorAll(1e-9 * sumOf(s.V))
	})
	setRef("ChaikinMoneyFlow", func(s *Series, p P) *RefOut {
		return out("Value", rDiv(rSum(rMFM(s), p.I(0)), rSum(s.V, p.I(0)))).floorAll(1e-7)
	})
	setRef("EaseOfMovement", func(s *Series, p P) *RefOut {
		m := rHL2(s)
		e := mk(s.N())
		for i := range e {
			d := m[i]
			if i > 0 {
				d = m[i] - m[i-1]
			}
			if s.V[i] > 0 {
				if r := s.H[i] - s.L[i]; r != 0 {
					e[i] = d * r / (s.V[i] / 1e8)
				}
			}
		}
		v := rSma(e, p.I(0))
		return out("Value", v).floorAll(1e-9 * colScale(e))
	})
	setRef("ForceIndex", func(s *Series, p P) *RefOut {
		f := mk(s.N())
		for i := range f {
			f[i] = s.C[i] * s.V[i]
			if i > 0 {
				f[i] = (s.C[i] - s.C[i-1]) * s.V[i]
			}
		}
		return out("Value", rEma(f, p.I(0))).floorAll(1e-9 * colScale(f))
	})
	setRef("MoneyFlowIndex", func(s *Series, p P) *RefOut {
		raw := rMul(rHLC3(s), s.V)
		pos, neg := mk(s.N()), mk(s.N())
		for i := range raw {
			if i > 0 && raw[i] != raw[i-1] && math.Abs(raw[i]-raw[i-1]) < 1e-12*raw[i] {
				pos[i], neg[i] = nan, nan // rising or falling only by rounding
				continue
			}
			if i == 0 || raw[i] >= raw[i-1] {
				pos[i] = raw[i]
			} else {
				neg[i] = raw[i]
			}
		}
		ps, ns := rSum(pos, p.I(0)), rSum(neg, p.I(0))
		return out("Value", zip(ps, ns, func(a, b float64) float64 { return 100 * safeDiv(a, a+b) })).floorAll(1e-5)
	})
	setRef("NegativeVolumeIndex", func(s *Series, p P) *RefOut {
		o := mk(s.N())
		for i := range o {
			switch {
			case i == 0:
				o[i] = 1000
			case s.V[i] > s.V[i-1]:
				o[i] = o[i-1]
			default:
				o[i] = o[i-1] * (1 + (s.C[i]-s.C[i-1])/s.C[i-1])
			}
		}
		return out("Value", o).floorAll(1e-7)
	})
	setRef("Obv", func(s *Series, p P) *RefOut {
		o := mk(s.N())
		for i := 1; i < len(o); i++ {
			o[i] = o[i-1]
			if s.C[i] > s.C[i-1] {
				o[i] += s.V[i]
			} else if s.C[i] < s.C[i-1] {
				o[i] -= s.V[i]
			}
		}
		return out("Value", o).floorAll(1e-9 * sumOf(s.V))
	})
	setRef("VolumePriceTrend", func(s *Series, p P) *RefOut {
		o := mk(s.N())
		t, g := 0.0, 0.0
		for i := range o {
			prev := s.C[max(0, i-p.I(0))]
			if i < p.I(0) {
				prev = s.C[0]
			}
			t += s.V[i] * (s.C[i] - prev) / prev
			g += math.Abs(s.V[i] * (s.C[i] - prev) / prev)
			o[i] = t
		}
		return out("Value", o).floorAll(1e-9 * g)
	})
	setRef("Vwma", func(s *Series, p P) *RefOut {
		return price(out("Value", rDiv(rSum(rMul(s.C, s.V), p.I(0)), rSum(s.V, p.I(0)))), s)
	})

	// --- trend following
	setStep("SuperTrend", func(s *Series, p P, rep *Frame) *RefOut {
		n := s.N()
		var atr []float64
		if p[2] != 0 {
			atr = atrTA(s, p.I(0))
		} else {
			atr = rSma(rTR(s.H, s.L, s.C, false), p.I(0))
		}
		src := rHL2(s)
		up, dn, ub, db := mk(n), mk(n), mk(n), mk(n)
		trend := 1
		var k cutter
		for i := 1; i < n; i++ {
			pu, pd := up[i-1], dn[i-1]
			k.exact = atr[i] == 0 && atr[i-1] == 0
			k.known = false
			if rep != nil {
				pu, pd = rep.at("UpTrend", i-1), rep.at("DownTrend", i-1)
				k.known = true
			}
			up[i], dn[i] = src[i]-p[1]*atr[i], src[i]+p[1]*atr[i]
			if k.over(i, s.C[i-1], pu) {
				up[i] = math.Max(up[i], pu)
			}
			if k.over(i, pd, s.C[i-1]) {
				dn[i] = math.Min(dn[i], pd)
			}
			was := trend
			if trend == -1 {
				if k.over(i, s.C[i], pd) {
					trend = 1
				}
			} else if k.over(i, pu, s.C[i]) {
				trend = -1
			}
			if trend > was {
				ub[i] = up[i]
			}
			if trend < was {
				db[i] = dn[i]
			}
		}
		o := price(out("UpTrend", up, "DownTrend", dn, "UpTrendBegin", ub, "DownTrendBegin", db), s)
		o.Cut = k.at
		return o
	})
	setStep("PivotPointSuperTrend", func(s *Series, p P, rep *Frame) *RefOut {
		n := s.N()
		ph, pl := rPivot(s.H, p.I(0), p.I(0), true), rPivot(s.L, p.I(0), p.I(0), false)
		atr := atrTA(s, p.I(1))
		ut, ub, dt, db := mk(n), mk(n), mk(n), mk(n)
		c, tu, td := 0.0, 0.0, 0.0
		trend := 0
		var k cutter
		for i := 1; i < n; i++ {
			pp := ph[i]
			if pp == 0 {
				pp = pl[i]
			}
			if pp != 0 {
				if c == 0 {
					c = pp
				} else {
					c = (2*c + pp) / 3
				}
			}
			k.exact = tu == 0 && td == 0
			var upSeen, downSeen bool // the line of the side the trend is on is reported
			if rep != nil {
				if v := rep.at("UpTrend", i-1) + rep.at("UpTrendBegin", i-1); v != 0 && trend == 1 {
					tu, upSeen = v, true
				}
				if v := rep.at("DownTrend", i-1) + rep.at("DownTrendBegin", i-1); v != 0 && trend == -1 {
					td, downSeen = v, true
				}
			}
			u, d := c-p[2]*atr[i], c+p[2]*atr[i]
			nu, nd := u, d
			if k.known = upSeen; k.over(i, s.C[i-1], tu) {
				nu = math.Max(u, tu)
			}
			if k.known = downSeen; k.over(i, td, s.C[i-1]) {
				nd = math.Min(d, td)
			}
			was := trend
			if k.known = downSeen; k.over(i, s.C[i], td) {
				trend = 1
			} else if k.known = upSeen; k.over(i, tu, s.C[i]) {
				trend = -1
			}
			switch {
			case trend == 1 && was == 1:
				ut[i] = nu
			case trend == 1 && was == -1:
				ub[i] = nu
			case trend == -1 && was == -1:
				dt[i] = nd
			case trend == -1 && was == 1:
				db[i] = nd
			}
			tu, td = nu, nd
		}
		o := price(out("UpTrend", ut, "UpTrendBegin", ub, "DownTrend", dt, "DownTrendBegin", db), s)
		o.Cut = k.at
		return o
	})
	setStep("UTBot", func(s *Series, p P, rep *Frame) *RefOut {
		n := s.N()
		atr := atrTA(s, p.I(1))
		v := mk(n)
		var k cutter
		for i := 1; i < n; i++ {
			loss := p[0] * atr[i]
			st, c, pc := v[i-1], s.C[i], s.C[i-1]
			k.exact = atr[i] == 0 && atr[i-1] == 0
			if rep != nil {
				st, k.known = rep.at("Value", i-1), true
			}
			above, below := k.over(i, c, st), k.over(i, st, c)
			pa, pb := k.over(i, pc, st), k.over(i, st, pc)
			switch {
			case above && pa:
				v[i] = math.Max(st, c-loss)
			case below && pb:
				v[i] = math.Min(st, c+loss)
			case above:
				v[i] = c - loss
			default:
				v[i] = c + loss
			}
		}
		o := price(out("Value", v, "Close", append([]float64{}, s.C...)), s)
		o.Cut = k.at
		return o
	})
	setRef("TraderXO", func(s *Series, p P) *RefOut {
		return price(out("Fast", rEma(s.C, p.I(0)), "Slow", rEma(s.C, p.I(1))), s)
	})
	setRef("EMAVegas", func(s *Series, p P) *RefOut {
		return price(out("Value", rEma(s.C, p.I(0)), "Short1Value", rEma(s.C, p.I(1)), "Short2Value", rEma(s.C, p.I(2)),
			"Long1Value", rEma(s.C, p.I(3)), "Long2Value", rEma(s.C, p.I(4))), s)
	})
	setRef("AverageDirectionalIndex", func(s *Series, p P) *RefOut {
		n := s.N()
		period, ln := p.I(0), p.I(1)
		tr := rTR(s.H, s.L, s.C, false)
		pd, md := mk(n), mk(n)
		for i := 1; i < n; i++ {
			a, b := s.H[i]-s.H[i-1], s.L[i-1]-s.L[i]
			if a > b && a > 0 {
				pd[i] = a
			}
			if b > a && b > 0 {
				md[i] = b
			}
		}
		// Wilder's running total: each step drops one length-th and adds the new value
		sm := func(v []float64) []float64 {
			o := mk(n)
			t := 0.0
			for i, x := range v {
				t = t*(float64(ln)-1)/float64(ln) + x
				o[i] = t
			}
			return o
		}
		st, sp, sq := sm(tr), sm(pd), sm(md)
		di, dm, dx := mk(n), mk(n), mk(n)
		for i := period - 1; i < n; i++ {
			if st[i] == 0 {
				continue
			}
			if st[i] < 1e-12*s.Scale {
				di[i], dm[i], dx[i] = nan, nan, nan
				continue
			}
			di[i], dm[i] = 100*sp[i]/st[i], 100*sq[i]/st[i]
			if t := di[i] + dm[i]; t != 0 {
				dx[i] = 100 * math.Abs(di[i]-dm[i]) / t
				if t < 1e-6 {
					dx[i] = nan
				}
			}
		}
		return out("DIPlus", di, "DIMins", dm, "ADX", rSma(dx, ln)).floorAll(1e-4)
	})
	setRef("Vortex", func(s *Series, p P) *RefOut {
		n := s.N()
		tr := rTR(s.H, s.L, s.C, false)
		vp, vm := mk(n), mk(n)
		for i := 1; i < n; i++ {
			vp[i], vm[i] = math.Abs(s.H[i]-s.L[i-1]), math.Abs(s.L[i]-s.H[i-1])
		}
		t := rSum(tr, p.I(0))
		return out("PlusVi", rDiv(rSum(vp, p.I(0)), t), "MinusVi", rDiv(rSum(vm, p.I(0)), t)).floorAll(1e-7)
	})
	setRef("LinearRegressionCandles", func(s *Series, p P) *RefOut {
		ln := p.I(1)
		end := func(v []float64) []float64 {
			return rollFull(v, ln, func(w []float64) float64 { m, b := rLine(w); return b + m*float64(len(w)-1) })
		}
		c := end(s.C)
		var sg []float64
		if p[2] != 0 {
			sg = rSma(c, p.I(0))
		} else {
			sg = rEma(c, p.I(0))
		}
		return out("Open", end(s.O), "High", end(s.H), "Low", end(s.L), "Close", c, "Signal", sg).floorAll(1e-8 * s.Scale)
	})
	setRef("StochasticHeat", func(s *Series, p P) *RefOut {
		n := s.N()
		ma := func(k int, v []float64) []float64 {
			switch p.I(4) {
			case 4:
				return rEma(v, k)
			case 2:
				return rSma(v, k)
			}
			return rWma(v, k)
		}
		fast := mk(n)
		for i := 1; i <= 28; i++ {
			fast = rAdd(fast, ma(p.I(1), rStoch(s.C, s.H, s.L, i*p.I(0))))
		}
		fast = mapv(fast, func(x float64) float64 { return x / 100 })
		return out("Fast", fast, "Slow", ma(p.I(2), fast)).floorAll(1e-6)
	})
	setRef("Camarilla", func(s *Series, p P) *RefOut {
		n := s.N()
		c := map[string][]float64{}
		for _, k := range specBy["Camarilla"].cols() {
			c[k] = mk(n)
		}
		for i := 0; i < n; i++ {
			h, l, cl := s.H[i], s.L[i], s.C[i]
			r := h - l
			for j, d := range []float64{12, 6, 4, 2} {
				k := string(rune('1' + j))
				c["High"+k][i] = cl + r*1.1/d
				c["Low"+k][i] = cl - r*1.1/d
			}
			c["High5"][i] = h / l * cl
			c["High6"][i] = c["High5"][i] + 1.168*(c["High5"][i]-c["High4"][i])
			c["Low5"][i] = 2*cl - c["High5"][i]
			c["Low6"][i] = 2*cl - c["High6"][i]
			c["Pivot"][i] = (h + l + cl) / 3
		}
		c["EMA"] = rEma(s.C, p.I(0))
		o := &RefOut{V: c, Floor: map[string]float64{}}
		return price(o, s)
	})
	setRef("BreakoutProbability", refBreakout)
	setRef("ReversalSignals", refReversal)
}

func (sp *Spec) cols() []string { return sortedKeys(sp.Pow) }

// rPivot: at index i, the value at i-right if it is the extreme of [i-right-left, i], else 0.
func rPivot(v []float64, left, right int, high bool) []float64 {
	o := mk(len(v))
	for i := left + right; i < len(v); i++ {
		w := v[i-right-left : i+1]
		x := v[i-right]
		if (high && x == maxOf(w)) || (!high && x == minOf(w)) {
			o[i] = x
		}
	}
	return o
}

func refReversal(s *Series, p P) *RefOut {
	side := filled(s.N(), float64(holdSide))
	run, dir := 0, 0
	for i := 4; i < s.N(); i++ {
		d := -1 // not below the close four candles ago
		if s.C[i] < s.C[i-4] {
			d = 1
		}
		if d == dir {
			run++
		} else {
			dir, run = d, 1
		}
		if run != 9 {
			continue
		}
		if dir == 1 {
			a := s.L[i] <= math.Min(s.L[i-3], s.L[i-2])
			b := s.L[i-1] <= math.Min(s.L[i-3], s.L[i-2])
			if a || b {
				side[i] = float64(buySide)
			}
			if !a && b && s.L[i-1] == s.L[i-3] {
				side[i] = nan // an exact tie with the low three candles back: either reading
			}
		} else {
			a := s.H[i] >= math.Max(s.H[i-3], s.H[i-2])
			b := s.H[i-1] >= math.Max(s.H[i-3], s.H[i-2])
			if a || b {
				side[i] = float64(sellSide)
			}
		}
	}
	return out("Side", side)
}

// rCCI computes (typical price - mean) / (0.015 * mean deviation).
func rCCI(tp []float64, period int, mean, dev []float64, s *Series, exact bool) []float64 {
	o := mk(len(tp))
	for i := period - 1; i < len(tp); i++ {
		if dev[i] == 0 || dev[i] < 1e-9*s.Scale {
			if exact && maxOf(win(tp, i, period)) == minOf(win(tp, i, period)) && isDyadic(s.Kind) {
				o[i] = 0
			} else {
				o[i] = nan
			}
			continue
		}
		o[i] = (tp[i] - mean[i]) / (0.015 * dev[i])
	}
	return o
}
