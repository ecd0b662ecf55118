package main

import (
	"fmt"
	"math"

	"github.com/idoall/stockindicator/utils/klines"
)

// Series is one candle series plus plain columns for the reference models.
type Series struct {
	Kind       string
	K          *klines.Item
	O, H, L, C []float64
	V          []float64
	T          []int64
	Scale      float64 // largest price
}

func (s *Series) N() int { return len(s.C) }

func (s *Series) Desc() map[string]any {
	k := min(len(s.C), 4)
	return map[string]any{"kind": s.Kind, "candles": len(s.C), "interval": fmt.Sprint(s.K.Interval), "first_closes": s.C[:k], "first_volumes": s.V[:k]}
}

func fromItem(kind string, k *klines.Item) *Series {
	s := &Series{Kind: kind, K: k}
	for _, c := range k.Candles {
		s.O = append(s.O, c.Open)
		s.H = append(s.H, c.High)
		s.L = append(s.L, c.Low)
		s.C = append(s.C, c.Close)
		s.V = append(s.V, c.Volume)
		s.T = append(s.T, c.TimeUnix)
		s.Scale = math.Max(s.Scale, c.High)
	}
	return s
}

// Edited is the same list object after some of its candles were changed in place: the first
// and the last stay, as do their number, their times and the header.
func (s *Series) Edited(r *Rng) *Series {
	cs := s.K.Candles
	if n := len(cs); n >= 4 {
		for q := 0; q < 1+n/20; q++ {
			a, b := cs[r.Range(1, n-2)], cs[r.Range(1, n-2)]
			switch r.Intn(3) {
			case 0: // two candles change places
				ta, tb := a.TimeUnix, b.TimeUnix
				*a, *b = *b, *a
				a.TimeUnix, b.TimeUnix = ta, tb
			case 1: // the candle now closes at its high
				a.Close = a.High
			case 2:
				a.Close = a.Low
			}
			for _, x := range []*klines.Candle{a, b} {
				x.IsBullMarket = x.Close > x.Open
				x.ChangePercent = (x.Close - x.Open) / x.Open
			}
		}
	}
	return fromItem(s.Kind, s.K)
}

func cloneItem(k *klines.Item, from, to int) *klines.Item {
	n := *k
	n.Candles = nil
	for _, c := range k.Candles[from:to] {
		d := *c
		n.Candles = append(n.Candles, &d)
	}
	return &n
}

func (s *Series) Clone() *Series       { return fromItem(s.Kind, cloneItem(s.K, 0, len(s.K.Candles))) }
func (s *Series) Prefix(n int) *Series { return fromItem(s.Kind, cloneItem(s.K, 0, n)) }
func (s *Series) Scaled(ps, vs float64) *Series {
	k := cloneItem(s.K, 0, len(s.K.Candles))
	for _, c := range k.Candles {
		c.Open *= ps
		c.High *= ps
		c.Low *= ps
		c.Close *= ps
		c.Volume *= vs
	}
	return fromItem(s.Kind, k)
}

// kinds of workload. "dyadic" kinds use prices that are multiples of 1/64 and integer
// volumes, so sums are exact and flat windows are exactly flat.
var kindsAll = []string{"walk", "float", "flat", "flatfloat", "up", "down", "steps", "zigzag", "micro", "huge", "gappy", "zerovol", "spike", "ties", "regime", "plateau", "volburst", "wave", "doji", "crash", "narrow"}
var kindsDyadic = []string{"walk", "flat", "up", "down", "steps", "zigzag", "gappy", "zerovol", "spike", "ties", "regime", "plateau", "volburst", "doji"}
var kindsFloat = []string{"float", "micro", "huge", "wave", "flatfloat", "crash", "narrow"}

func isDyadic(k string) bool {
	for _, x := range kindsDyadic {
		if x == k {
			return true
		}
	}
	return false
}

var intervals = []klines.Interval{klines.OneMin, klines.FiveMin, klines.ThirtyMin, klines.OneHour, klines.FourHour, klines.OneDay}

// GenSeries makes a valid series of n candles of the given kind.
func GenSeries(r *Rng, kind string, n int) *Series {
	iv := Pick(r, intervals)
	t := int64(1600000000) + int64(r.Intn(2000000))*60
	switch {
	case r.Chance(0.08): // before 1970
		t = -int64(r.Intn(2000000)) * 600
	case r.Chance(0.08): // beyond 2038
		t = int64(2200000000) + int64(r.Intn(2000000))*600
	case r.Chance(0.04): // around the epoch
		t = -int64(r.Intn(300)) * 3600
	}
	t -= t % int64(iv.Duration().Seconds())
	step := int64(iv.Duration().Seconds())
	item := &klines.Item{Exchange: "ex", Symbol: "SYM", Code: "C1", Interval: iv}
	if r.Chance(0.1) {
		item.Exchange, item.Symbol, item.Code = Pick(r, []string{"", " x ", "交易所", "a/b"}), Pick(r, []string{"", "BTC-USDT", "sym"}), Pick(r, []string{"", "c", "C1"})
	}
	much := r.Chance(0.1) // counts and amounts beyond 32 bits
	q := func(x float64) float64 { return math.Max(1.0/64, math.Round(x*64)/64) }
	base := q(20 + r.F()*200)
	vol0 := float64(100 + r.Intn(5000))
	p := base
	fb := 0.37 + r.F()*900
	switch kind {
	case "micro":
		fb = (1 + r.F()*9) * 1e-7
	case "huge":
		fb = (1 + r.F()*9) * 1e9
	}
	dir := 1.0
	left := 0
	level := base
	amp := 2 + r.F()*12
	per := float64(r.Range(5, 40))
	if kind == "down" {
		base += float64(n / 8) // room to fall
		p = base
	}
	tick := 1.0
	if kind == "narrow" { // a pegged pair: thousands of ticks of price, a few ticks of range
		tick = math.Ldexp(1, -r.Range(8, 30))
		base = 64 + float64(r.Intn(1000))
		p = base
	}
	for i := 0; i < n; i++ {
		switch kind { // a long walk does not stick at the smallest price, nor run off
		case "flat", "flatfloat", "up", "down", "ties", "narrow", "wave":
		case "steps":
			if level < base/16 {
				level = q(level * 4)
			} else if level > base*64 {
				level = q(level / 16)
			}
		case "float", "micro", "huge", "crash":
			if i > 0 && p < fb/1e4 {
				p *= 1e3
			} else if i > 0 && p > fb*1e4 {
				p /= 1e3
			}
		default:
			if p < base/16 {
				p = q(p * 4)
			} else if p > base*64 {
				p = q(p / 16)
			}
		}
		var o, h, l, c, v float64
		v = float64(r.Intn(4000)) + 1
		exact := true
		switch kind {
		case "flat":
			o, h, l, c = base, base, base, base
			v = vol0
			if r.Chance(0.3) {
				v = 0
			}
		case "flatfloat":
			exact = false
			o, h, l, c = fb, fb, fb, fb
			v = 0.1 + r.F()
		case "up", "down":
			d := 0.25 + float64(r.Intn(8))/16
			if kind == "down" {
				d = -math.Min(d, p/(4+float64(n-i)))
			}
			o = p
			c = q(p + d)
			h = math.Max(o, c) + float64(r.Intn(4))/32
			l = math.Max(1.0/64, math.Min(o, c)-float64(r.Intn(4))/32)
		case "steps":
			if left == 0 {
				left = r.Range(1, 30)
				level = q(level * (1 + 0.08*r.Norm()))
			}
			left--
			o, h, l, c = level, level, level, level
			if r.Chance(0.15) {
				h += 0.25
			}
			if r.Chance(0.15) {
				l = math.Max(1.0/64, l-0.25)
			}
		case "plateau":
			// long exactly-flat stretches inside a random walk
			if left == 0 && r.Chance(0.04) {
				left = r.Range(10, 60)
			}
			if left > 0 {
				left--
				o, h, l, c = p, p, p, p
				if left%2 == 0 {
					v = 0
				}
			} else {
				o = p
				c = q(p * (1 + 0.02*r.Norm()))
				h = q(math.Max(o, c) * (1 + 0.005*r.F()))
				l = q(math.Min(o, c) * (1 - 0.005*r.F()))
			}
		case "zigzag":
			if left == 0 {
				left = r.Range(3, 25)
				dir = -dir
				amp = 0.002 + 0.02*r.F()
			}
			left--
			o = p
			c = q(p * (1 + dir*amp*(0.5+r.F())))
			h = q(math.Max(o, c) * (1 + 0.004*r.F()))
			l = q(math.Min(o, c) * (1 - 0.004*r.F()))
		case "regime":
			if left == 0 {
				left = r.Range(15, 90)
				dir = float64(r.Intn(3) - 1)
				if p > 40*base {
					dir = -1
				}
				if p < base/20 {
					dir = 1
				}
			}
			left--
			o = p
			c = q(p * (1 + dir*0.012 + 0.008*r.Norm()))
			h = q(math.Max(o, c) * (1 + 0.006*r.F()))
			l = q(math.Min(o, c) * (1 - 0.006*r.F()))
		case "gappy":
			o = q(p * (1 + 0.03*r.Norm()))
			c = q(o * (1 + 0.01*r.Norm()))
			if r.Chance(0.1) {
				c = o
			}
			h = math.Max(o, c) + float64(r.Intn(16))/32
			l = math.Max(1.0/64, math.Min(o, c)-float64(r.Intn(16))/32)
		case "doji":
			o = q(p * (1 + 0.01*r.Norm()))
			c = o
			if r.Chance(0.4) {
				h, l = o, o
			} else {
				h = o + float64(r.Intn(16))/32
				l = math.Max(1.0/64, o-float64(r.Intn(16))/32)
			}
		case "zerovol", "volburst":
			o = p
			c = q(p * (1 + 0.01*r.Norm()))
			h = q(math.Max(o, c) * (1 + 0.004*r.F()))
			l = q(math.Min(o, c) * (1 - 0.004*r.F()))
			if left == 0 {
				left = r.Range(1, 40)
				dir = -dir
			}
			left--
			if kind == "zerovol" && dir > 0 {
				v = 0
			}
			if kind == "volburst" {
				if dir > 0 {
					v = float64(r.Intn(3))
				} else {
					v = float64(r.Intn(1000000000))
				}
			}
		case "spike":
			o = p
			c = q(p * (1 + 0.004*r.Norm()))
			h = q(math.Max(o, c) * (1 + 0.003*r.F()))
			l = q(math.Min(o, c) * (1 - 0.003*r.F()))
			if r.Chance(0.03) {
				h = q(h * (1.2 + r.F()))
			}
			if r.Chance(0.03) {
				l = q(l * (0.4 + 0.4*r.F()))
			}
		case "ties":
			o = float64(2 + r.Intn(4))
			c = float64(2 + r.Intn(4))
			h = math.Max(o, c) + float64(r.Intn(2))
			l = math.Min(o, c) - float64(r.Intn(2))
			v = float64(r.Intn(3))
		case "narrow":
			exact = false
			o = p
			c = p + tick*float64(r.Range(-3, 3))
			if math.Abs(c-base) > 40*tick {
				c = base
			}
			h = math.Max(o, c) + tick*float64(r.Intn(3))
			l = math.Min(o, c) - tick*float64(r.Intn(3))
		case "wave":
			exact = false
			m := fb * (1 + 0.3*math.Sin(2*math.Pi*float64(i)/per) + 0.2*math.Sin(2*math.Pi*float64(i)/(per*4.7)))
			o = p
			if i == 0 {
				o = m
			}
			c = m * (1 + 0.003*r.Norm())
			h = math.Max(o, c) * (1 + 0.004*r.F())
			l = math.Min(o, c) * (1 - 0.004*r.F())
			v = r.F() * 1234.5
		case "crash":
			exact = false
			if i == 0 {
				p = fb
			}
			o = p
			x := 0.006 * r.Norm()
			if r.Chance(0.02) {
				x = -0.3 * r.F()
			}
			if r.Chance(0.02) {
				x = 0.4 * r.F()
			}
			c = p * (1 + x)
			h = math.Max(o, c) * (1 + 0.01*r.F()*r.F())
			l = math.Min(o, c) * (1 - 0.01*r.F()*r.F())
			v = math.Round(r.F()*1e6) / 1e3
		case "float", "micro", "huge":
			exact = false
			if i == 0 {
				p = fb
			}
			o = p * (1 + 0.001*r.Norm())
			c = o * (1 + 0.012*r.Norm())
			h = math.Max(o, c) * (1 + 0.006*r.F())
			l = math.Min(o, c) * (1 - 0.006*r.F())
			v = r.F() * 987.654
		default: // walk
			o = p
			c = q(p * (1 + 0.015*r.Norm()))
			h = q(math.Max(o, c) * (1 + 0.006*r.F()))
			l = q(math.Min(o, c) * (1 - 0.006*r.F()))
		}
		if exact {
			o, h, l, c = q(o), q(h), q(l), q(c)
		}
		h = math.Max(h, math.Max(o, c))
		l = math.Min(l, math.Min(o, c))
		p = c
		cd := &klines.Candle{Open: o, High: h, Low: l, Close: c, Volume: v, TimeUnix: t, IsBullMarket: c > o, Count: int64(r.Intn(50)), Amount: float64(r.Intn(100000))}
		if o != 0 {
			cd.ChangePercent = (c - o) / o
		}
		if much {
			cd.Count, cd.Amount = int64(r.U64()>>24), math.Round(r.F()*1e15)/100
		}
		item.Candles = append(item.Candles, cd)
		t += step
		if kind == "gappy" && r.Chance(0.1) {
			t += step * int64(r.Intn(5))
		}
	}
	// lists arrive as they are delivered: newest first, with repeated times or unordered
	if cs := item.Candles; r.Chance(0.06) && len(cs) > 1 {
		switch r.Intn(3) {
		case 0:
			for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
				cs[i].TimeUnix, cs[j].TimeUnix = cs[j].TimeUnix, cs[i].TimeUnix
			}
		case 1:
			for q := 0; q < 1+len(cs)/10; q++ {
				cs[r.Intn(len(cs))].TimeUnix = cs[r.Intn(len(cs))].TimeUnix
			}
		case 2:
			for q := 0; q < 1+len(cs)/4; q++ {
				a, b := cs[r.Intn(len(cs))], cs[r.Intn(len(cs))]
				a.TimeUnix, b.TimeUnix = b.TimeUnix, a.TimeUnix
			}
		}
	}
	return fromItem(kind, item)
}

// lengths exercised, short ones included.
// sometimesLong keeps n, or now and then picks a length up to hi (evenly on a logarithmic scale).
func sometimesLong(r *Rng, n int, chance float64, hi int) int {
	if !r.Chance(chance) {
		return n
	}
	return int(math.Exp(math.Log(200) + r.F()*(math.Log(float64(hi))-math.Log(200))))
}

// windowFor picks a window of 1..hi, on a long series often a far longer one.
func windowFor(r *Rng, n, hi int) int {
	if n > 200 && r.Chance(0.5) {
		return int(math.Exp(math.Log(float64(n)) * (0.4 + 0.65*r.F())))
	}
	return r.Range(1, hi)
}

var shortLens = []int{1, 2, 3, 4, 5, 7, 9, 10, 13, 14, 15, 20, 21, 27, 30, 31}
