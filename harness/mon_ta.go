package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/ta"
)

var arrKinds = []string{"norm", "ints", "neg", "const", "asc", "desc", "zigzag", "spike", "tiny", "mixed", "zeros", "steps", "dyadic"}

// genArr makes an arbitrary finite array (not restricted to prices).
func genArr(r *Rng, kind string, n int) []float64 {
	v := mk(n)
	x := 10 + 90*r.F()
	for i := range v {
		switch kind {
		case "norm":
			v[i] = 50 + 20*r.Norm()
		case "ints":
			v[i] = float64(r.Intn(7))
		case "neg":
			v[i] = -1 - 100*r.F()
		case "const":
			v[i] = x
		case "asc":
			v[i] = float64(i)*1.5 + r.F()
		case "desc":
			v[i] = 1000 - float64(i)*1.5 - r.F()
		case "zigzag":
			v[i] = math.Abs(float64((i%17)-8)) + float64(i%3)/4
		case "spike":
			v[i] = r.Norm()
			if r.Chance(0.04) {
				v[i] *= 1e6
			}
		case "tiny":
			v[i] = r.Norm() * 1e-9
		case "mixed":
			v[i] = r.Norm() * math.Pow(10, float64(r.Range(-3, 3)))
		case "zeros":
			if r.Chance(0.3) {
				v[i] = float64(r.Range(-3, 3))
			}
		case "steps":
			if i > 0 && r.Chance(0.8) {
				v[i] = v[i-1]
			} else {
				v[i] = float64(r.Range(-20, 20)) / 4
			}
		case "dyadic":
			v[i] = float64(r.Range(-4000, 4000)) / 64
		}
	}
	return v
}

func cp(v []float64) []float64 { return append([]float64{}, v...) }

// cmpArr compares a result with a reference array (NaN: no expectation).
func cmpArr(c *Ctx, key, label string, got, want []float64, tol, floor float64, ctx string) bool {
	if len(got) != len(want) {
		c.Fail(key+"/len", label, "%s: %d values, expected %d", ctx, len(got), len(want))
		return false
	}
	for i := range want {
		if math.IsNaN(want[i]) && floor >= 0 {
			continue
		}
		if !near(got[i], want[i], tol, floor) {
			c.Fail(key, label, "%s: [%d] = %v, expected %v", ctx, i, got[i], want[i])
			return false
		}
	}
	c.Keep(key, got)
	c.Count("values compared "+key, len(want))
	return true
}

// forArr drives array functions over every array kind.
func forArr(c *Ctx, tag string, per int, f func(r *Rng, label, kind string, v []float64, p int)) {
	for _, kd := range arrKinds {
		for j := 0; j < per; j++ {
			label := fmt.Sprintf("%s/ta/%s/%d", tag, kd, j)
			if c.Only != "" && c.Only != label {
				continue
			}
			r := NewRng(c.Seed, label)
			n := r.Range(1, 160)
			if r.Chance(0.2) {
				n = r.Range(1, 12)
			}
			n = sometimesLong(r, n, 0.04, 5000)
			v := genArr(r, kd, n)
			p := windowFor(r, n, 30)
			if r.Chance(0.15) {
				p = r.Range(1, n+4)
			}
			if r.Chance(0.1) {
				p = n
			}
			c.Case(tag+"/ta", label, func() {
				f(r, label, kd, v, p)
				if n > 3 {
					c.Seen(hash64(label, v[n-1], p))
				}
			})
		}
	}
}

func taAverages(c *Ctx) {
	forArr(c, c.Prop, c.N(40, 500), func(r *Rng, label, kind string, v []float64, p int) {
		in := cp(v)
		sc := 1e-9*colScale(v) + 1e-300
		ctx := fmt.Sprintf("period %d over %d %s values", p, len(v), kind)
		cmpArr(c, "ta.Sma", label, ta.Sma(p, v), rSma(in, p), 1e-8, sc, ctx)
		cmpArr(c, "ta.Ema", label, ta.Ema(p, v), rEma(in, p), 1e-8, sc, ctx)
		cmpArr(c, "ta.Rma", label, ta.Rma(p, v), rRma(in, p), 1e-8, sc, ctx)
		cmpArr(c, "ta.Wma", label, ta.Wma(p, v), rWma(in, p), 1e-8, sc, ctx)
		e := rEma(in, p)
		cmpArr(c, "ta.Dema", label, ta.Dema(p, v), zip(e, rEma(e, p), func(a, b float64) float64 { return 2*a - b }), 1e-8, sc, ctx)
		cmpArr(c, "ta.MA", label, ta.MA(v, p), rollFull(in, p, meanOf), 1e-8, sc, ctx)
		if m := ta.Mean(v); !near(m, meanOf(in), 1e-8, sc) {
			c.Fail("ta.Mean", label, "mean %v, expected %v", m, meanOf(in))
		}
		// every average of a window lies between the smallest and the largest value seen
		lo, hi := rMin(in, len(in)), rMax(in, len(in))
		for nm, x := range map[string][]float64{"Sma": ta.Sma(p, v), "Ema": ta.Ema(p, v), "Rma": ta.Rma(p, v)} {
			for i := range x {
				if x[i] < lo[i]-sc || x[i] > hi[i]+sc {
					c.Fail("ta."+nm+"/range", label, "%s: average %v at %d outside [%v, %v]", ctx, x[i], i, lo[i], hi[i])
					break
				}
			}
		}
		if !reflect.DeepEqual(in, v) {
			c.Fail("ta/input", label, "an averaging function changed its input")
		}
	})
}

func taExtremes(c *Ctx) {
	forArr(c, c.Prop, c.N(60, 700), func(r *Rng, label, kind string, v []float64, p int) {
		in := cp(v)
		ctx := fmt.Sprintf("period %d over %d %s values", p, len(v), kind)
		cmpArr(c, "ta.Max", label, ta.Max(p, v), rMax(in, p), 0, 0, ctx)
		cmpArr(c, "ta.Min", label, ta.Min(p, v), rMin(in, p), 0, 0, ctx)
		if x, w := ta.Highest(v, p), maxOf(win(in, len(in)-1, p)); x != w {
			c.Fail("ta.Highest", label, "%s: %v, expected %v", ctx, x, w)
		}
		if x, w := ta.Lowest(v, p), minOf(win(in, len(in)-1, p)); x != w {
			c.Fail("ta.Lowest", label, "%s: %v, expected %v", ctx, x, w)
		}
		left, right := r.Range(0, 8), r.Range(0, 8)
		pc := fmt.Sprintf("left %d right %d over %d %s values", left, right, len(v), kind)
		cmpArr(c, "ta.PivotHigh", label, ta.PivotHigh(v, left, right), rPivot(in, left, right, true), 0, 0, pc)
		cmpArr(c, "ta.PivotLow", label, ta.PivotLow(v, left, right), rPivot(in, left, right, false), 0, 0, pc)
		for k := 0; k < 6; k++ {
			ix := r.Intn(len(v))
			a, b := max(0, ix-left), min(len(v)-1, ix+right)
			for _, high := range []bool{true, false} {
				want := maxOf(in[a : b+1])
				val, pos := ta.PivotMax(v, ix, left, right)
				nm := "ta.PivotMax"
				if !high {
					want = minOf(in[a : b+1])
					val, pos = ta.PivotMin(v, ix, left, right)
					nm = "ta.PivotMin"
				}
				if val != want {
					c.Fail(nm, label, "%s at %d: value %v, expected %v", pc, ix, val, want)
				} else if pos < a || pos > b || in[pos] != want {
					c.Fail(nm+"/pos", label, "%s at %d: position %d does not hold the extreme %v", pc, ix, pos, want)
				}
			}
		}
		if !reflect.DeepEqual(in, v) {
			c.Fail("ta/input", label, "an extreme function changed its input")
		}
	})
}

func taVolatility(c *Ctx) {
	for _, kd := range kindsAll {
		for j := 0; j < c.N(8, 100); j++ {
			label := fmt.Sprintf("%s/taVol/%s/%d", c.Prop, kd, j)
			r := NewRng(c.Seed, label)
			n := sometimesLong(r, r.Range(1, 200), 0.06, 4000)
			s := GenSeries(r, kd, n)
			p := windowFor(r, n, 30)
			c.Case("ta/volatility", label, func() {
				fl := 1e-9 * s.Scale
				ctx := fmt.Sprintf("period %d over %d %s candles", p, n, kd)
				tr := rTR(s.H, s.L, s.C, false)
				cmpArr(c, "ta.TRange", label, ta.TRange(s.H, s.L, s.C), tr, 1e-8, fl, ctx)
				cmpArr(c, "ta.TrueRange", label, ta.TrueRange(s.H, s.L, s.C), tr, 1e-8, fl, ctx)
				cmpArr(c, "ta.Atr", label, ta.Atr(s.H, s.L, s.C, p), atrTA(s, p), 1e-8, fl, ctx)
				natr := func(cl []float64) []float64 { // no close, no percentage
					w, tr := mk(n), rTR(s.H, s.L, cl, false)
					if n > p {
						a := meanOf(tr[1 : p+1])
						for i := p; i < n; i++ {
							if i > p {
								a = (a*float64(p-1) + tr[i]) / float64(p)
							}
							if cl[i] != 0 {
								w[i] = 100 * a / cl[i]
							}
						}
					}
					return w
				}
				if p > 1 {
					cmpArr(c, "ta.Natr", label, ta.Natr(s.H, s.L, s.C, p), natr(s.C), 1e-8, 1e-6, ctx)
					cl := cp(s.C)
					for i := range cl {
						if r.Chance(0.1) || i == p && r.Chance(0.5) {
							cl[i] = float64(r.Intn(2)) / 2
						}
					}
					cmpArr(c, "ta.Natr", label, ta.Natr(s.H, s.L, cl, p), natr(cl), 1e-8, 1e-6, ctx+", some closes 0 or 0.5")
				}
				// Chandelier exits: extremes of the window three average ranges away
				ap := r.Range(1, 30)
				lo, sh := trend.NewAtr(s.K, ap).ChandelierExit(p)
				a := rRma(rTR(s.H, s.L, s.C, true), ap)
				cmpArr(c, "ChandelierExit/long", label, lo, zip(rMax(s.H, p), a, func(x, y float64) float64 { return x - 3*y }), 1e-8, fl, ctx)
				cmpArr(c, "ChandelierExit/short", label, sh, zip(rMin(s.L, p), a, func(x, y float64) float64 { return x + 3*y }), 1e-8, fl, ctx)
				c.Seen(hash64(label))
			})
		}
	}
}

func taOsc(c *Ctx) {
	for _, kd := range kindsAll {
		for j := 0; j < c.N(6, 80); j++ {
			label := fmt.Sprintf("%s/taOsc/%s/%d", c.Prop, kd, j)
			r := NewRng(c.Seed, label)
			n := sometimesLong(r, r.Range(1, 200), 0.06, 4000)
			s := GenSeries(r, kd, n)
			p := windowFor(r, n, 60)
			c.Case("ta/oscillators", label, func() {
				ctx := fmt.Sprintf("period %d over %d %s candles", p, n, kd)
				k, d := ta.Stochastic(s.C, s.H, s.L, p)
				w := rStoch(s.C, s.H, s.L, p)
				cmpArr(c, "ta.Stochastic/k", label, k, w, 1e-8, 1e-6, ctx)
				cmpArr(c, "ta.Stochastic/d", label, d, rSma(w, 3), 1e-8, 1e-6, ctx)
				// the channel index of the stand-alone functions, with any factor
				f := Pick(r, []float64{0.015, 0.015, 0.01, 0.1, 1, 0.05 + r.F()})
				wc := rCCI(s.C, p, rollFull(s.C, p, meanOf), rollFull(s.C, p, rMeanDev), s, true)
				scaled := mapv(wc, func(x float64) float64 { return x * 0.015 / f })
				cmpArr(c, "ta.AiCoinCCI", label, ta.AiCoinCCI(cp(s.C), p, f), scaled, 1e-6, 1e-3*0.015/f, ctx)
				if r.Chance(0.5) {
					mid, dev := mk(n), mk(n)
					for i := range mid {
						mid[i], dev[i] = s.C[i]*(1+0.1*r.Norm()), math.Max(0, s.C[i]*r.Norm())
					}
					want := mk(n)
					for i := range want {
						if dev[i] != 0 {
							want[i] = (s.C[i] - mid[i]) / (0.015 * dev[i])
						}
					}
					cmpArr(c, "trend.ComputeCCI", label, trend.ComputeCCI(cp(s.C), mid, dev), want, 1e-9, 1e-12, ctx)
				}
				c.Seen(hash64(label))
			})
		}
	}
}

// residual sum of squares of y against the line b+m*x
func rss(x, y []float64, m, b float64) float64 {
	t := mk(len(x))
	for i := range x {
		e := y[i] - b - m*x[i]
		t[i] = e * e
	}
	return sumOf(t)
}

func rFit(x, y []float64) (m, b float64, ok bool) {
	xm, ym := meanOf(x), meanOf(y)
	sxy, sxx := 0.0, 0.0
	for i := range x {
		sxy += (x[i] - xm) * (y[i] - ym)
		sxx += (x[i] - xm) * (x[i] - xm)
	}
	if sxx < 1e-6*(1+xm*xm) {
		return 0, ym, false
	}
	return sxy / sxx, ym - sxy/sxx*xm, true
}

func init() {
	reg(&PropDef{ID: "C18", Rule: "One case = one array (13 kinds, 1..160 values) and period; every statistic and regression is compared with its textbook two-pass definition. Non-trivial: more than 3 values.",
		Run: func(c *Ctx) {
			forArr(c, "C18", c.N(60, 700), func(r *Rng, label, kind string, v []float64, p int) {
				in := cp(v)
				n := len(v)
				sc := colScale(v) + 1e-300
				ctx := fmt.Sprintf("period %d over %d %s values", p, n, kind)
				cmpArr(c, "ta.Sum", label, ta.Sum(p, v), rSum(in, p), 1e-8, 1e-11*sc*float64(p+1), ctx)
				if x, w := ta.Cum(v), sumOf(in); !near(x, w, 1e-8, 1e-11*sc*float64(n)) {
					c.Fail("ta.Cum", label, "%s: total %v, expected %v", ctx, x, w)
				}
				if x, w := ta.SD(v), math.Sqrt(rPopVar(in)); !near(x, w, 1e-7, 1e-9*sc) {
					c.Fail("ta.SD", label, "%s: standard deviation %v, expected %v", ctx, x, w)
				}
				va := rollFull(in, p, rPopVar)
				cmpArr(c, "ta.Variance", label, ta.Variance(v, p), va, 1e-7, 1e-11*sc*sc, ctx)
				for _, k := range []float64{1, 2, 2.5, -1.5, 0.25} {
					w := mapv(va, func(x float64) float64 {
						if x < 1e-9*sc*sc {
							return nan
						}
						if x < 1e-12 {
							return nan // TA-Lib floor: a variance under 1e-14 counts as none
						}
						return math.Sqrt(x) * k
					})
					cmpArr(c, "ta.StdDev", label, ta.StdDev(v, p, k), w, 1e-6, 1e-9*sc, ctx)
				}
				for i, x := range ta.StdDev(v, p, 1) {
					if !(x >= 0) || x > 2*sc {
						c.Fail("ta.StdDev/range", label, "%s: [%d] = %v", ctx, i, x)
						break
					}
				}
				cmpArr(c, "ta.Dev", label, ta.Dev(v, p), rollFull(in, p, rMeanDev), 1e-8, 1e-10*sc, ctx)
				ma := rollFull(in, p, meanOf)
				switch r.Intn(4) { // about whatever centres are given
				case 0:
					ma = rSma(v, r.Range(1, 2*p))
				case 1:
					for i := range ma {
						ma[i] = v[n/2]
					}
				case 2:
					for i := range ma {
						ma[i] = v[i/3*3]
					}
				}
				md := mk(n)
				for i := p - 1; i < n; i++ {
					for _, x := range win(in, i, p) {
						md[i] += math.Abs(x-ma[i]) / float64(p)
					}
				}
				cmpArr(c, "ta.MeanDeviation", label, ta.MeanDeviation(v, p, cp(ma)), md, 1e-8, 1e-10*sc, ctx)
				{ // a single point has no slope: the line is the point itself
					lr := func(f func(m, b float64) float64) []float64 {
						return rollFull(in, p, func(w []float64) float64 { m, b := rLine(w); return f(m, b) })
					}
					fl := 1e-9 * sc * float64(n)
					cmpArr(c, "ta.LinearReg", label, ta.LinearReg(v, p), lr(func(m, b float64) float64 { return b + m*float64(p-1) }), 1e-7, fl, ctx)
					cmpArr(c, "ta.LinearRegSlope", label, ta.LinearRegSlope(v, p), lr(func(m, b float64) float64 { return m }), 1e-7, fl, ctx)
					cmpArr(c, "ta.LinearRegIntercept", label, ta.LinearRegIntercept(v, p), lr(func(m, b float64) float64 { return b }), 1e-7, fl, ctx)
					cmpArr(c, "ta.LinearRegAngle", label, ta.LinearRegAngle(v, p), lr(func(m, b float64) float64 { return math.Atan(m) * 180 / math.Pi }), 1e-7, 60*fl+1e-7, ctx)
				}
				// general least squares over arbitrary abscissae
				if kind != "spike" && kind != "mixed" && kind != "tiny" {
					x := mk(n)
					for i := range x {
						x[i] = float64(i) + r.F()*0.5
						if r.Chance(0.02) && i > 0 {
							x[i] = x[i-1]
						}
					}
					switch form := r.Intn(9); form { // other families of abscissae
					case 0: // symmetric about their middle, not evenly spaced
						for i := range x {
							if i < n/2 {
								x[n-1-i] = float64(n-1) - x[i]
							}
						}
					case 1: // whole numbers, evenly spaced at both ends only
						for i := range x {
							x[i] = float64(i)
							if i > 1 && i < n-2 {
								x[i] = float64(r.Range(1, n))
							}
						}
					case 2: // evenly spaced, any origin, step and direction
						o, st := float64(r.Range(-n, n)), Pick(r, []float64{-2, -1, -0.5, 0.25, 0.5, 1, 2})
						for i := range x {
							x[i] = o + st*float64(i)
						}
					case 3: // any order
						for i := range x {
							j := r.Intn(i + 1)
							x[i], x[j] = x[j], x[i]
						}
					}
					xc := cp(x)
					tol := 1e-6*sc + 1e-9
					m, b := utils.LeastSquare(x, v)
					if wm, wb, ok := rFit(xc, in); ok {
						if !near(m, wm, 1e-6, tol) || !near(b, wb, 1e-6, tol*10) {
							c.Fail("LeastSquare", label, "%s: line %v*x%+v, expected %v*x%+v", ctx, m, b, wm, wb)
						}
						y := utils.LinearRegressionUsingLeastSquare(x, v)
						cmpArr(c, "LinearRegressionUsingLeastSquare", label, y, mapv(xc, func(t float64) float64 { return wm*t + wb }), 1e-6, tol*10, ctx)
					}
					// one point, or several over the same abscissa
					if k := r.Range(1, 4); k <= n {
						flat := filled(k, xc[0])
						m, b := utils.LeastSquare(flat, cp(in[:k]))
						y := utils.LinearRegressionUsingLeastSquare(flat, cp(in[:k]))
						mean := meanOf(in[:k])
						if !near(m*xc[0]+b, mean, 1e-6, tol*10) {
							c.Fail("LeastSquare/one", label, "%s: %d points over one abscissa: line %v*x%+v misses their mean %v", ctx, k, m, b, mean)
						}
						cmpArr(c, "LinearRegressionUsingLeastSquare/one", label, y, filled(k, mean), 1e-6, tol*10, ctx)
					}
					mm, mb := utils.MovingLeastSquare(p, x, v)
					mr := utils.MovingLinearRegressionUsingLeastSquare(p, x, v)
					if len(mm) != n || len(mb) != n || len(mr) != n {
						c.Fail("MovingLeastSquare/len", label, "%s: %d %d %d results", ctx, len(mm), len(mb), len(mr))
						return
					}
					for i := 0; i < n; i++ {
						wm, wb, ok := rFit(win(xc, i, p), win(in, i, p))
						if !ok || len(win(xc, i, p)) < 2 {
							// every abscissa of the window is the same: any line through
							// the mean of the values minimises the squared error
							if same := win(xc, i, p); spreadOf(same) == 0 {
								mean := meanOf(win(in, i, p))
								t := tol * 50 * float64(1+n)
								if got := mm[i]*xc[i] + mb[i]; !near(got, mean, 1e-4, t) || !near(mr[i], mean, 1e-4, t) {
									c.Fail("MovingLeastSquare/one", label, "%s: at %d line %v*x%+v, fitted %v, mean of the window %v", ctx, i, mm[i], mb[i], mr[i], mean)
									return
								}
							}
							continue
						}
						t := tol * 50 * float64(1+n)
						if !near(mm[i], wm, 1e-4, tol*50) || !near(mb[i], wb, 1e-4, t) {
							c.Fail("MovingLeastSquare", label, "%s: at %d line %v*x%+v, expected %v*x%+v", ctx, i, mm[i], mb[i], wm, wb)
							return
						}
						if w := wm*xc[i] + wb; !near(mr[i], w, 1e-4, tol*100) {
							c.Fail("MovingLinearRegression", label, "%s: at %d %v, expected %v", ctx, i, mr[i], w)
							return
						}
					}
					c.Count("moving regressions compared", n)
					if !reflect.DeepEqual(x, xc) {
						c.Fail("regression/input", label, "abscissae changed")
					}
				}
				if !reflect.DeepEqual(in, v) {
					c.Fail("ta/input", label, "a statistic changed its input")
				}
			})
		}})

	reg(&PropDef{ID: "C32", Rule: "One case = one or two arrays (13 kinds, 1..160 values) and scalar arguments; each element-wise function is compared with its definition element by element and the inputs with copies. Non-trivial: more than 3 values.",
		Run: func(c *Ctx) {
			forArr(c, "C32", c.N(60, 700), func(r *Rng, label, kind string, v []float64, p int) {
				n := len(v)
				w := genArr(r, Pick(r, arrKinds), n)
				if r.Chance(0.2) { // zeros with a sign
					for i := range v {
						if v[i] == 0 || r.Chance(0.05) {
							v[i] = math.Copysign(0, -1)
						}
					}
				}
				a, b := cp(v), cp(w)
				ctx := fmt.Sprintf("%d %s values, argument %d", n, kind, p)
				ck := func(name string, got, want []float64) { cmpArr(c, "ta."+name, label, got, want, 1e-12, -1e-300, ctx) }
				x := float64(r.Range(-8, 8)) / 4
				from := x
				if r.Chance(0.3) {
					x = Pick(r, []float64{(r.F() - 0.5) * 1e6, (r.F() - 0.5) * 1e-6, r.F(), -r.F(), 1, 10, 100, 1e9, 1.0 / 3})
				}
				ck("Add of itself", ta.Add(v, v), rAdd(a, a))
				ck("Subtract of itself", ta.Subtract(v, v), mk(n))
				ck("Multiply of itself", ta.Multiply(v, v), rMul(a, a))
				ck("Add", ta.Add(v, w), rAdd(a, b))
				ck("Subtract", ta.Subtract(v, w), rSub(a, b))
				ck("Multiply", ta.Multiply(v, w), rMul(a, b))
				ck("Divide", ta.Divide(v, w), rDiv(a, b))
				ck("AddBy", ta.AddBy(v, x), mapv(a, func(t float64) float64 { return t + x }))
				ck("MultiplyBy", ta.MultiplyBy(v, x), mapv(a, func(t float64) float64 { return t * x }))
				if x != 0 {
					ck("DivideBy", ta.DivideBy(v, x), mapv(a, func(t float64) float64 { return t / x }))
				}
				ck("Abs", ta.Abs(v), mapv(a, math.Abs))
				ck("Sqrt", ta.Sqrt(ta.Abs(v)), mapv(a, func(t float64) float64 { return math.Sqrt(math.Abs(t)) }))
				ck("Sqrt of negatives", ta.Sqrt(v), mapv(a, math.Sqrt))
				ck("Pow", ta.Pow(v, 2), mapv(a, func(t float64) float64 { return t * t }))
				ex := Pick(r, []float64{0, 1, -1, 0.5, -2, 1.5, 4, 5, 1.0 / 3})
				ck("Pow of any exponent", ta.Pow(v, ex), mapv(a, func(t float64) float64 { return math.Pow(t, ex) }))
				ck("Pow3", ta.Pow(v, 3), mapv(a, func(t float64) float64 { return t * t * t }))
				ck("KeepPositives", ta.KeepPositives(v), mapv(a, func(t float64) float64 { return math.Max(t, 0) }))
				ck("KeepNegatives", ta.KeepNegatives(v), mapv(a, func(t float64) float64 { return math.Min(t, 0) }))
				ck("ExtractSign", ta.ExtractSign(v), mapv(a, func(t float64) float64 {
					if t < 0 {
						return -1
					}
					return 1
				}))
				ck("ShiftRight", ta.ShiftRight(p, v), rShift(a, p, 0))
				ck("ShiftRightAndFillBy", ta.ShiftRightAndFillBy(p, x, v), rShift(a, p, x))
				ck("Diff", ta.Diff(v, p), rSub(a, rShift(a, p, 0)))
				pd := mk(n)
				for i := p; i < n; i++ {
					pd[i] = (a[i] - a[i-p]) / a[i-p]
					if a[i-p] == 0 {
						pd[i] = nan
					}
				}
				cmpArr(c, "ta.PercentDiff", label, ta.PercentDiff(v, p), pd, 1e-9, 1e-12, ctx)
				dg := r.Range(-4, 10)
				pw := math.Pow(10, float64(dg))
				for i, y := range ta.RoundDigitsAll(v, dg) {
					k := y * pw
					if math.Abs(y-a[i]) > 0.5/pw*(1+1e-9)+1e-12*math.Abs(a[i]) || math.Abs(k-math.Round(k)) > 1e-6+1e-12*math.Abs(k) {
						c.Fail("ta.RoundDigitsAll", label, "%v rounded to %d digits gives %v", a[i], dg, y)
						break
					}
					if z := ta.RoundDigits(a[i], dg); z != y {
						c.Fail("ta.RoundDigits", label, "%v to %d digits: %v alone, %v in an array", a[i], dg, z, y)
						break
					}
				}
				st := Pick(r, []float64{0.25, 0.5, 1, 2})
				m := r.Range(0, 50)
				g := mk(m)
				for i := range g {
					g[i] = from + st*float64(i)
				}
				ck("GenerateNumbers", ta.GenerateNumbers(from, from+st*float64(m), st), g)
				st = Pick(r, []float64{0.1, 0.01, 0.3, 0.07, 1.0 / 3, 1e-3, 0.7}) // (end-begin)/step falls just beside a whole number
				for i := range g {
					g[i] = from + st*float64(i)
				}
				cmpArr(c, "ta.GenerateNumbers", label, ta.GenerateNumbers(from, from+st*float64(m), st), g, 1e-9, 1e-12, ctx)
				// missing values
				z := cp(a)
				wz := cp(a)
				for i := range z {
					if r.Chance(0.2) {
						z[i], wz[i] = math.NaN(), x
					}
				}
				for i := range z {
					if q := ta.Nz(z[i], x); q != wz[i] {
						c.Fail("ta.Nz", label, "Nz(%v, %v) = %v", z[i], x, q)
						break
					}
				}
				if n > 0 {
					ck("Nzs", ta.Nzs(z, x), wz)
				}
				if n >= 2 {
					for k := 0; k < 4; k++ {
						lv := a[r.Intn(n)]
						if k == 0 {
							lv = (a[n-1] + a[n-2]) / 2
						}
						up, dn := a[n-2] < lv && a[n-1] > lv, a[n-2] > lv && a[n-1] < lv
						if ta.CrossOver(v, lv) != up || ta.CrossUnder(v, lv) != dn {
							c.Fail("ta.Cross", label, "last two values %v, %v against %v: over %v, under %v", a[n-2], a[n-1], lv, ta.CrossOver(v, lv), ta.CrossUnder(v, lv))
						}
					}
				}
				if !reflect.DeepEqual(a, v) || !reflect.DeepEqual(b, w) {
					c.Fail("ta/input", label, "an element-wise function changed its input")
				}
			})
		}})
}

var _ = sort.Float64s
