package main

import "math"

// Independent, naive reference definitions. A NaN in a reference means "no expectation".

var nan = math.NaN()

func mk(n int) []float64 { return make([]float64, n) }

func filled(n int, x float64) []float64 {
	v := mk(n)
	for i := range v {
		v[i] = x
	}
	return v
}

func zip(a, b []float64, f func(x, y float64) float64) []float64 {
	v := mk(len(a))
	for i := range a {
		v[i] = f(a[i], b[i])
	}
	return v
}

func mapv(a []float64, f func(x float64) float64) []float64 {
	v := mk(len(a))
	for i := range a {
		v[i] = f(a[i])
	}
	return v
}

func safeDiv(x, y float64) float64 {
	q := x / y
	if math.IsNaN(x) || math.IsNaN(y) {
		return nan
	}
	if math.IsNaN(q) || math.IsInf(q, 0) {
		return 0
	}
	return q
}

// win returns the last p values up to and including i (fewer at the start).
func win(v []float64, i, p int) []float64 { return v[max(0, i-p+1) : i+1] }

func sumOf(v []float64) float64 {
	// Kahan summation: the reference is the accurate one
	s, c := 0.0, 0.0
	for _, x := range v {
		y := x - c
		t := s + y
		c = (t - s) - y
		s = t
	}
	return s
}

func meanOf(v []float64) float64 { return sumOf(v) / float64(len(v)) }

func maxOf(v []float64) float64 {
	m := v[0]
	for _, x := range v {
		if math.IsNaN(x) {
			return nan
		}
		m = math.Max(m, x)
	}
	return m
}
func minOf(v []float64) float64 {
	m := v[0]
	for _, x := range v {
		if math.IsNaN(x) {
			return nan
		}
		m = math.Min(m, x)
	}
	return m
}

func roll(v []float64, p int, f func(w []float64) float64) []float64 {
	o := mk(len(v))
	for i := range v {
		o[i] = f(win(v, i, p))
	}
	return o
}

// rollFull gives 0 before a full window.
func rollFull(v []float64, p int, f func(w []float64) float64) []float64 {
	o := mk(len(v))
	for i := p - 1; i < len(v); i++ {
		o[i] = f(v[i-p+1 : i+1])
	}
	return o
}

func rSma(v []float64, p int) []float64 { return roll(v, p, meanOf) }
func rSum(v []float64, p int) []float64 { return roll(v, p, sumOf) }
func rMax(v []float64, p int) []float64 { return roll(v, p, maxOf) }
func rMin(v []float64, p int) []float64 { return roll(v, p, minOf) }
func rWma(v []float64, p int) []float64 {
	return rollFull(v, p, func(w []float64) float64 {
		t := mk(len(w))
		for k, x := range w {
			t[k] = x * float64(k+1)
		}
		return sumOf(t) / (float64(p) * float64(p+1) / 2)
	})
}

func rEma(v []float64, p int) []float64 {
	o := mk(len(v))
	a := 2 / float64(p+1)
	for i, x := range v {
		if i == 0 {
			o[i] = x
		} else {
			o[i] = o[i-1] + a*(x-o[i-1])
		}
	}
	return o
}

func rRma(v []float64, p int) []float64 {
	o := mk(len(v))
	for i, x := range v {
		if i < p {
			o[i] = meanOf(v[:i+1])
		} else {
			o[i] = o[i-1] + (x-o[i-1])/float64(p)
		}
	}
	return o
}

func rShift(v []float64, k int, fill float64) []float64 {
	o := mk(len(v))
	for i := range v {
		if i < k {
			o[i] = fill
		} else {
			o[i] = v[i-k]
		}
	}
	return o
}

func rSub(a, b []float64) []float64 { return zip(a, b, func(x, y float64) float64 { return x - y }) }
func rAdd(a, b []float64) []float64 { return zip(a, b, func(x, y float64) float64 { return x + y }) }
func rMul(a, b []float64) []float64 { return zip(a, b, func(x, y float64) float64 { return x * y }) }
func rDiv(a, b []float64) []float64 { return zip(a, b, safeDiv) }

// rTR is the true range; first is the value of the first candle.
func rTR(h, l, c []float64, firstRange bool) []float64 {
	o := mk(len(c))
	for i := range c {
		if i == 0 {
			if firstRange {
				o[0] = h[0] - l[0]
			}
			continue
		}
		o[i] = math.Max(h[i], c[i-1]) - math.Min(l[i], c[i-1])
	}
	return o
}

func rPopVar(w []float64) float64 {
	m := meanOf(w)
	t := mk(len(w))
	for i, x := range w {
		t[i] = (x - m) * (x - m)
	}
	return sumOf(t) / float64(len(w))
}

func rMeanDev(w []float64) float64 {
	m := meanOf(w)
	t := mk(len(w))
	for i, x := range w {
		t[i] = math.Abs(x - m)
	}
	return sumOf(t) / float64(len(w))
}

// rLine fits y = b + m*k for k = 0..len-1 by least squares.
func rLine(w []float64) (m, b float64) {
	n := float64(len(w))
	xm := (n - 1) / 2
	ym := meanOf(w)
	sxy, sxx := 0.0, 0.0
	for k, y := range w {
		sxy += (float64(k) - xm) * (y - ym)
		sxx += (float64(k) - xm) * (float64(k) - xm)
	}
	if sxx == 0 {
		return 0, ym
	}
	m = sxy / sxx
	return m, ym - m*xm
}

func rHL2(s *Series) []float64 {
	return rSub(mapv(s.H, func(x float64) float64 { return x / 2 }), mapv(s.L, func(x float64) float64 { return -x / 2 }))
}
func rHLC3(s *Series) []float64 {
	o := mk(s.N())
	for i := range o {
		o[i] = (s.H[i] + s.L[i] + s.C[i]) / 3
	}
	return o
}

// rStoch is 100*(c-lowest)/(highest-lowest), 0 where the range is exactly zero.
func rStoch(c, h, l []float64, p int) []float64 {
	hi, lo := rMax(h, p), rMin(l, p)
	o := mk(len(c))
	for i := range c {
		o[i] = safeDiv((c[i]-lo[i])*100, hi[i]-lo[i])
	}
	return o
}

func rRsi(v []float64, p int) []float64 {
	o := mk(len(v))
	if p < 2 || len(v) <= p {
		return o
	}
	g, d := 0.0, 0.0
	for i := 1; i <= p; i++ {
		x := v[i] - v[i-1]
		g += math.Max(x, 0)
		d += math.Max(-x, 0)
	}
	g /= float64(p)
	d /= float64(p)
	for i := p; i < len(v); i++ {
		if i > p {
			x := v[i] - v[i-1]
			g = (g*float64(p-1) + math.Max(x, 0)) / float64(p)
			d = (d*float64(p-1) + math.Max(-x, 0)) / float64(p)
		}
		if g+d > 0 {
			o[i] = 100 * g / (g + d)
		}
	}
	return o
}

func rAD(s *Series) []float64 {
	o := mk(s.N())
	t := 0.0
	for i := range o {
		if r := s.H[i] - s.L[i]; r != 0 {
			t += s.V[i] * ((s.C[i] - s.L[i]) - (s.H[i] - s.C[i])) / r
		}
		o[i] = t
	}
	return o
}

func rMFM(s *Series) []float64 {
	o := mk(s.N())
	for i := range o {
		if r := s.H[i] - s.L[i]; r != 0 {
			o[i] = s.V[i] * ((s.C[i] - s.L[i]) - (s.H[i] - s.C[i])) / r
		}
	}
	return o
}

// spreadOf is the difference between the largest and the smallest value.
func spreadOf(v []float64) float64 {
	lo, hi := v[0], v[0]
	for _, x := range v {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	return hi - lo
}
