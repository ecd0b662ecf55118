package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

// contiguous returns an item of n candles at the given interval starting at t0.
func contiguous(r *Rng, kind string, n int, iv klines.Interval, t0 int64) *klines.Item {
	s := GenSeries(r, kind, n)
	k := s.K
	k.Interval = iv
	k.Exchange, k.Symbol, k.Code = fmt.Sprint("ex", r.Intn(9)), fmt.Sprint("S", r.Intn(99)), fmt.Sprint("C", r.Intn(99))
	for i, c := range k.Candles {
		c.TimeUnix = t0 + int64(i)*int64(iv.Duration().Seconds())
	}
	return k
}

var convPairs = []struct {
	iv klines.Interval
	m  []int
}{
	{klines.TenSecond, []int{3, 6, 30}},
	{klines.OneMin, []int{2, 3, 5, 7, 10, 15, 30, 60, 240}},
	{klines.ThreeMin, []int{5, 10, 20}},
	{klines.FiveMin, []int{2, 3, 6, 12, 288}},
	{klines.FifteenMin, []int{2, 4, 16, 96}},
	{klines.ThirtyMin, []int{2, 8, 48}},
	{klines.OneHour, []int{2, 3, 4, 6, 8, 12, 24, 72, 168}},
	{klines.FourHour, []int{3, 6, 42}},
	{klines.OneDay, []int{2, 3, 5, 7, 14, 15, 30, 90}},
}

func eqCandle(got, want *klines.Candle, vtol float64) string {
	if got.TimeUnix != want.TimeUnix {
		return fmt.Sprintf("opens at %d, expected %d", got.TimeUnix, want.TimeUnix)
	}
	for _, x := range []struct {
		n    string
		g, w float64
	}{{"Open", got.Open, want.Open}, {"High", got.High, want.High}, {"Low", got.Low, want.Low}, {"Close", got.Close, want.Close}} {
		if x.g != x.w {
			return fmt.Sprintf("%s %v, expected %v", x.n, x.g, x.w)
		}
	}
	if !near(got.Volume, want.Volume, vtol, 0) {
		return fmt.Sprintf("Volume %v, expected %v", got.Volume, want.Volume)
	}
	if !near(got.Amount, want.Amount, vtol, 0) {
		return fmt.Sprintf("Amount %v, expected %v", got.Amount, want.Amount)
	}
	if got.Count != want.Count {
		return fmt.Sprintf("Count %v, expected %v", got.Count, want.Count)
	}
	if !near(got.ChangePercent, want.ChangePercent, 1e-9, 1e-12) {
		return fmt.Sprintf("ChangePercent %v, expected %v", got.ChangePercent, want.ChangePercent)
	}
	if got.IsBullMarket != want.IsBullMarket {
		return fmt.Sprintf("IsBullMarket %v, expected %v", got.IsBullMarket, want.IsBullMarket)
	}
	return ""
}

func mergeCandles(g []*klines.Candle) *klines.Candle {
	w := &klines.Candle{TimeUnix: g[0].TimeUnix, Open: g[0].Open, Close: g[len(g)-1].Close, High: g[0].High, Low: g[0].Low}
	for _, x := range g {
		w.High, w.Low = math.Max(w.High, x.High), math.Min(w.Low, x.Low)
		w.Volume += x.Volume
		w.Amount += x.Amount
		w.Count += x.Count
	}
	w.ChangePercent = (w.Close - w.Open) / w.Open
	w.IsBullMarket = w.Close > w.Open
	return w
}

func init() {
	reg(&PropDef{ID: "C28", Rule: "One case = one contiguous series starting anywhere (half of them off a boundary of the longer interval), converted to a multiple of its interval, every converted candle compared with the merge of its group; or one request that must be refused. Non-trivial: at least 2 converted candles, or a refusal.",
		Asm: []string{"the interval is at least one second"},
		Run: func(c *Ctx) {
			for j := 0; j < c.N(1500, 15000); j++ {
				label := fmt.Sprintf("C28/conv/%d", j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				c.Case("ConvertToNewInterval", label, func() { convCase(c, r, label) })
			}
		}})

	reg(&PropDef{ID: "C29", Rule: "One case = one candle list in a random order with duplicates and gaps, put through a random history of sort, de-duplication and range cuts, compared after each step with a model list. Non-trivial: 4 or more candles.",
		Run: func(c *Ctx) {
			for j := 0; j < c.N(1500, 15000); j++ {
				label := fmt.Sprintf("C29/hist/%d", j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				c.Case("klines", label, func() { listCase(c, r, label) })
			}
		}})

	reg(&PropDef{ID: "C30", Rule: "One case = one series; every derived price, extracted column and Heikin-Ashi candle is compared with its definition. Non-trivial: 10 or more candles.",
		Run: func(c *Ctx) {
			for _, kd := range kindsAll {
				for j := 0; j < c.N(30, 400); j++ {
					label := fmt.Sprintf("C30/%s/%d", kd, j)
					if c.Only != "" && c.Only != label {
						continue
					}
					r := NewRng(c.Seed, label)
					c.Case("derived", label, func() { derivedCase(c, r, kd, label) })
				}
			}
		}})

	reg(&PropDef{ID: "C31", Rule: "One case = one window, interval and request limit; the returned ranges are walked and every instant asked about is compared with the flags set. Non-trivial: 2 or more intervals.",
		Run: func(c *Ctx) {
			for j := 0; j < c.N(1500, 15000); j++ {
				if j == 0 {
					for _, nm := range sortedKeys(namedIntervals) {
						x := namedIntervals[nm]
						if x.iv.Duration().Seconds() != x.s || x.iv.String() != time.Duration(x.s*float64(time.Second)).String() {
							c.Fail("interval/"+nm, "C31/named", "the interval %s lasts %v and reads %s", nm, x.iv.Duration(), x.iv)
						}
					}
				}
				label := fmt.Sprintf("C31/range/%d", j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				c.Case("ranges", label, func() { rangeCase(c, r, label) })
			}
			for j := 0; j < min(c.N(1, 2), 4); j++ {
				label := fmt.Sprintf("C31/huge/%d", j)
				c.Case("ranges", label, func() { hugeRange(c, NewRng(c.Seed, label), label, j) })
			}
		}})

	reg(&PropDef{ID: "C33", Rule: "One case = one random value put through each conversion and validation helper. Non-trivial: every case (distinct by value).",
		Run: func(c *Ctx) {
			dir, err := os.MkdirTemp("", "vhfile")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			for j := 0; j < c.N(800, 10000); j++ {
				label := fmt.Sprintf("C33/val/%d", j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				c.Case("commonutils", label, func() { utilCase(c, r, label, dir) })
			}
		}})
}

func convCase(c *Ctx, r *Rng, label string) {
	pr := Pick(r, convPairs)
	m := Pick(r, pr.m)
	nw := klines.Interval(int64(pr.iv) * int64(m))
	kind := Pick(r, kindsAll)
	n := r.Range(1, 5*m)
	if n > 700 {
		n = 700
	}
	if r.Chance(0.01) {
		n = r.Range(700, 9000)
	}
	if r.Chance(0.3) && m <= 100 {
		n = m * r.Range(1, 6)
	}
	t0 := time.Unix(Pick(r, []int64{1500000000, 1500000000, 1500000000, 1500000000, -1500000000, 4000000000, -100000000})+int64(r.Intn(200000000)), 0).Truncate(nw.Duration()).Unix()
	if r.Chance(0.5) { // anywhere, not only on a boundary of the longer interval
		t0 += int64(r.Intn(m))*int64(pr.iv.Duration().Seconds()) + int64(r.Intn(2)*r.Intn(60))
	}
	if r.Chance(0.08) { // a series across the epoch or across a 32-bit limit
		t0 = Pick(r, []int64{0, 1 << 31, 1 << 32}) - int64(r.Intn(n+1))*int64(pr.iv.Duration().Seconds()) + int64(r.Intn(61)-30)
	}
	k := contiguous(r, kind, n, pr.iv, t0)
	before := cloneItem(k, 0, n)
	ctx := fmt.Sprintf("%d %s candles of %v to %v", n, kind, pr.iv, nw)
	refuse := func(key, why string, it *klines.Item, iv klines.Interval, target error) {
		res, err := it.ConvertToNewInterval(iv)
		if err == nil {
			c.Fail("convert/"+key, label, "%s: no error although %s (got %d candles)", ctx, why, len(res.Candles))
			return
		}
		if target != nil && !errors.Is(err, target) {
			c.Fail("convert/"+key+"/error", label, "%s: %s, but the error is %v", ctx, why, err)
		}
		c.Count("refusals observed", 1)
	}
	switch r.Intn(10) {
	case 0:
		bad := Pick(r, []klines.Interval{pr.iv, pr.iv / 2, klines.Interval(int64(pr.iv) - int64(time.Second))})
		if bad > 0 {
			refuse("shorter", "the new interval is not longer", k, bad, klines.ErrCanOnlyUpscaleCandles)
		}
	case 1:
		refuse("multiple", "the new interval is not a multiple", k, klines.Interval(int64(pr.iv)*int64(m)+int64(pr.iv)/2), klines.ErrWholeNumberScaling)
	case 2:
		refuse("invalid", "the new interval is not positive", k, klines.Interval(-int64(r.Intn(3))), klines.ErrInvalidInterval)
		z := cloneItem(k, 0, n)
		z.Interval = 0
		refuse("unset", "the old interval is unset", z, nw, klines.ErrInvalidInterval)
	case 3:
		if n >= 3 {
			g := cloneItem(k, 0, n)
			x := r.Range(1, n-2)
			g.Candles = append(g.Candles[:x], g.Candles[x+1:]...)
			refuse("gap", fmt.Sprintf("candle %d is missing", x), g, nw, nil)
			if y := r.Range(1, n-2); y != x { // as many candles as the span holds, one of them twice
				h := cloneItem(k, 0, n)
				d := *h.Candles[y]
				h.Candles[x] = &d
				sort.SliceStable(h.Candles, func(a, b int) bool { return h.Candles[a].TimeUnix < h.Candles[b].TimeUnix })
				refuse("masked gap", fmt.Sprintf("candle %d is missing and candle %d is there twice", x, y), h, nw, nil)
			}
		}
	case 4:
		e := cloneItem(k, 0, 0)
		refuse("empty", "there are no candles", e, nw, klines.ErrInsufficientCandleData)
	}
	if n < m {
		refuse("insufficient", "not one whole group is present", k, nw, klines.ErrInsufficientCandleData)
		c.Seen(hash64(label, n, m))
		return
	}
	res, err := k.ConvertToNewInterval(nw)
	if err != nil {
		c.Fail("convert/error", label, "%s starting at %d: %v", ctx, t0, err)
		return
	}
	if res.Interval != nw || res.Exchange != k.Exchange || res.Symbol != k.Symbol || res.Code != k.Code {
		c.Fail("convert/header", label, "%s: result is %s %s %s %v", ctx, res.Exchange, res.Symbol, res.Code, res.Interval)
	}
	if len(res.Candles) != n/m {
		c.Fail("convert/count", label, "%s: %d candles, expected %d", ctx, len(res.Candles), n/m)
		return
	}
	for i, g := range res.Candles {
		if d := eqCandle(g, mergeCandles(before.Candles[i*m:(i+1)*m]), 1e-9); d != "" {
			c.Fail("convert/candle", label, "%s: candle %d of %d %s", ctx, i, len(res.Candles), d)
			return
		}
	}
	if d := itemDiff(before, k); d != "" {
		c.Fail("convert/input", label, "%s: the source changed: %s", ctx, d)
	}
	// two steps give the same as one
	for _, a := range []int{2, 3, 5} {
		if m%a == 0 && m > a && len(res.Candles) > 0 {
			mid, err := k.ConvertToNewInterval(klines.Interval(int64(pr.iv) * int64(a)))
			if err != nil {
				c.Fail("convert/two-step", label, "%s: first step: %v", ctx, err)
				return
			}
			two, err := mid.ConvertToNewInterval(nw)
			if err != nil || len(two.Candles) != len(res.Candles) {
				c.Fail("convert/two-step", label, "%s: via %v: error %v", ctx, mid.Interval, err)
				return
			}
			for i := range two.Candles {
				if d := eqCandle(two.Candles[i], res.Candles[i], 1e-9); d != "" {
					c.Fail("convert/two-step", label, "%s: via %v: candle %d %s", ctx, mid.Interval, i, d)
					return
				}
			}
			c.Count("two-step conversions compared", 1)
			break
		}
	}
	c.Count("converted candles compared", len(res.Candles))
	if len(res.Candles) > 1 {
		c.Seen(hash64(label, n, m, kind))
	}
}

func candleKey(x *klines.Candle) string { return fmt.Sprintf("%+v", *x) }

func listCase(c *Ctx, r *Rng, label string) {
	n := sometimesLong(r, r.Range(0, 40), 0.01, 5000)
	s := GenSeries(r, Pick(r, kindsAll), n)
	k := s.K
	span := Pick(r, []int{5, 30, 1000, 100000, 1 << 26}) // the last one: more than a century
	t0 := int64(1600000000)
	if r.Chance(0.2) {
		t0 = Pick(r, []int64{0, 0, -1800, -900000000, 4294967296 - 1800})
	}
	for _, x := range k.Candles {
		x.TimeUnix = t0 + int64(r.Intn(span))*60
	}
	if n > 1 && r.Chance(0.15) { // times a power of two apart are different times
		for q := 0; q < 1+n/8; q++ {
			k.Candles[r.Intn(n)].TimeUnix = k.Candles[r.Intn(n)].TimeUnix + int64(1)<<Pick(r, []int{8, 16, 31, 32, 32, 33})
		}
	}
	model := cloneItem(k, 0, n).Candles
	hist := ""
	same := func(what string) bool {
		if len(k.Candles) != len(model) {
			c.Fail(what, label, "after [%s]: %d candles, expected %d", hist, len(k.Candles), len(model))
			return false
		}
		for i := range model {
			if *k.Candles[i] != *model[i] {
				c.Fail(what, label, "after [%s]: candle %d is %s, expected %s", hist, i, candleKey(k.Candles[i]), candleKey(model[i]))
				return false
			}
		}
		return true
	}
	cut := func(v []*klines.Candle, a, b int64) []*klines.Candle {
		var o []*klines.Candle
		for _, x := range v {
			if x.TimeUnix >= a && x.TimeUnix < b {
				o = append(o, x)
			}
		}
		return o
	}
	for step := 0; step < r.Range(1, 6); step++ {
		switch r.Intn(4) {
		case 0:
			desc := r.Chance(0.5)
			hist += fmt.Sprintf("sort(desc=%v) ", desc)
			k.SortCandlesByTimestamp(desc)
			a, b := []string{}, []string{}
			for i, x := range k.Candles {
				a = append(a, candleKey(x))
				if i > 0 && (desc && k.Candles[i-1].TimeUnix < x.TimeUnix || !desc && k.Candles[i-1].TimeUnix > x.TimeUnix) {
					c.Fail("sort/order", label, "after [%s]: %d before %d", hist, k.Candles[i-1].TimeUnix, x.TimeUnix)
					return
				}
			}
			for _, x := range model {
				b = append(b, candleKey(x))
			}
			sort.Strings(a)
			sort.Strings(b)
			if !reflect.DeepEqual(a, b) {
				c.Fail("sort/content", label, "after [%s]: the candles are not the same ones", hist)
				return
			}
			model = cloneItem(k, 0, len(k.Candles)).Candles // order among equal times is free
		case 1:
			hist += "dedupe "
			k.RemoveDuplicates()
			seen := map[int64]bool{}
			var o []*klines.Candle
			for _, x := range model {
				if !seen[x.TimeUnix] {
					seen[x.TimeUnix] = true
					o = append(o, x)
				}
			}
			model = o
			if !same("RemoveDuplicates") {
				return
			}
		case 2, 3:
			a := t0 + int64(r.Range(-2, span))*60 + int64(r.Range(-1, 1))
			b := a + 1 + int64(r.Intn(span*60))
			if r.Chance(0.3) && len(model) > 0 {
				a = model[r.Intn(len(model))].TimeUnix
			}
			if r.Chance(0.3) && len(model) > 0 {
				if x := model[r.Intn(len(model))].TimeUnix; x > a {
					b = x
				}
			}
			if r.Chance(0.06) { // nothing lies in an empty or reversed range
				b = a - int64(Pick(r, []int{0, 0, 1, 60, 6000}))
			}
			at, bt := time.Unix(a, 0), time.Unix(b, 0)
			if r.Chance(0.2) { // a range need not start or end on a whole second: a candle opens on one
				na, nb := r.Intn(1000000000), r.Intn(1000000000)
				at, bt = at.Add(time.Duration(na)), bt.Add(time.Duration(nb))
				if na > 0 {
					a++
				}
				if nb > 0 {
					b++
				}
				c.Count("ranges off whole seconds", 1)
			}
			if r.Chance(0.5) {
				at, bt = at.UTC(), bt.In(time.FixedZone("x", 3600*5))
			}
			hist += fmt.Sprintf("range[%d,%d) ", a, b)
			// the copy first: it must leave the list alone
			q := k.RemoveOutsideRangeCopy(at, bt)
			if !same("RemoveOutsideRangeCopy/source") {
				return
			}
			want := cut(model, a, b)
			if len(q.Candles) != len(want) || q.Interval != k.Interval || q.Exchange != k.Exchange || q.Symbol != k.Symbol || q.Code != k.Code {
				c.Fail("RemoveOutsideRangeCopy", label, "after [%s]: %d candles, expected %d (header %s %s %s %v)", hist, len(q.Candles), len(want), q.Exchange, q.Symbol, q.Code, q.Interval)
				return
			}
			for i := range want {
				if *q.Candles[i] != *want[i] {
					c.Fail("RemoveOutsideRangeCopy", label, "after [%s]: candle %d differs", hist, i)
					return
				}
				q.Candles[i].Close += 1
				q.Candles[i].TimeUnix += 1
			}
			if !same("RemoveOutsideRangeCopy/shared") {
				return
			}
			k.RemoveOutsideRange(at, bt)
			model = want
			if !same("RemoveOutsideRange") {
				return
			}
		}
		c.Count("list operations observed", 1)
	}
	if r.Chance(0.2) {
		k.Clear()
		if len(k.Candles) != 0 {
			c.Fail("Clear", label, "%d candles left", len(k.Candles))
		}
	}
	if n >= 4 {
		c.Seen(hash64(label, hist))
	}
}

// named intervals and the seconds their names promise
var namedIntervals = map[string]struct {
	iv klines.Interval
	s  float64
}{
	"100ms": {klines.HundredMilliseconds, 0.1}, "1000ms": {klines.ThousandMilliseconds, 1}, "10s": {klines.TenSecond, 10}, "15s": {klines.FifteenSecond, 15}, "30s": {klines.ThirtySecond, 30},
	"1m": {klines.OneMin, 60}, "3m": {klines.ThreeMin, 180}, "5m": {klines.FiveMin, 300}, "10m": {klines.TenMin, 600}, "15m": {klines.FifteenMin, 900}, "30m": {klines.ThirtyMin, 1800},
	"1h": {klines.OneHour, 3600}, "2h": {klines.TwoHour, 7200}, "3h": {klines.ThreeHour, 10800}, "4h": {klines.FourHour, 14400}, "6h": {klines.SixHour, 21600}, "7h": {klines.SevenHour, 25200}, "8h": {klines.EightHour, 28800}, "12h": {klines.TwelveHour, 43200},
	"1d": {klines.OneDay, 86400}, "2d": {klines.TwoDay, 172800}, "3d": {klines.ThreeDay, 259200}, "5d": {klines.FiveDay, 432000}, "7d": {klines.SevenDay, 604800}, "15d": {klines.FifteenDay, 1296000},
	"1w": {klines.OneWeek, 604800}, "2w": {klines.TwoWeek, 1209600}, "3w": {klines.ThreeWeek, 1814400}, "30d": {klines.OneMonth, 2592000}, "90d": {klines.ThreeMonth, 7776000}, "180d": {klines.SixMonth, 15552000}, "270d": {klines.NineMonth, 23328000}, "365d": {klines.OneYear, 31536000},
}

// derivedCase judges what a list derives from its candles, several times over the life of
// the same list object, with candles corrected, replaced, added and removed in between.
func derivedCase(c *Ctx, r *Rng, kind, label string) {
	s := GenSeries(r, kind, sometimesLong(r, r.Range(0, 120), 0.02, 5000))
	for round := 0; round < 3; round++ {
		fails := len(c.Viol)
		derivedRound(c, r, s, label)
		if len(c.Viol) != fails {
			return
		}
		k := s.K
		if n := len(s.C); round == 0 && n >= 10 {
			c.Seen(hash64(label, s.C[n/2]))
		}
		switch n := len(k.Candles); r.Intn(4) {
		case 0, 1:
			s = s.Edited(r)
		case 2:
			if n > 1 {
				k.Candles = k.Candles[:n-1]
			}
			s = fromItem(kind, k)
		case 3: // a candle replaced by another object, the header renamed
			if n > 2 {
				x := *k.Candles[n/2]
				x.High, x.Close = x.High*1.5, x.High*1.25
				x.IsBullMarket, x.ChangePercent = x.Close > x.Open, (x.Close-x.Open)/x.Open
				k.Candles[n/2] = &x
			}
			k.Symbol += "x"
			s = fromItem(kind, k)
		}
		c.Count("rounds on one list object", 1)
	}
}

func derivedRound(c *Ctx, r *Rng, s *Series, label string) {
	k := s.K
	kind, n := s.Kind, len(k.Candles)
	before := cloneItem(k, 0, n)
	tol := 1e-12
	o := k.GetOHLC()
	for i := 0; i < n; i++ {
		x := k.Candles[i]
		if o.Open[i] != x.Open || o.High[i] != x.High || o.Low[i] != x.Low || o.Close[i] != x.Close || o.Volume[i] != x.Volume || o.BullMarket[i] != x.IsBullMarket || o.TimeUnix[i] != x.TimeUnix {
			c.Fail("GetOHLC", label, "row %d of %d does not match its candle", i, n)
			return
		}
	}
	type dp struct {
		nm string
		v  []float64
		f  func(x *klines.Candle) float64
	}
	for _, d := range []dp{
		{"HL2", k.HL2(), func(x *klines.Candle) float64 { return (x.High + x.Low) / 2 }},
		{"HLC3", k.HLC3(), func(x *klines.Candle) float64 { return (x.High + x.Low + x.Close) / 3 }},
		{"OHLC4", k.OHLC4(), func(x *klines.Candle) float64 { return (x.Open + x.High + x.Low + x.Close) / 4 }},
	} {
		if len(d.v) != n {
			c.Fail(d.nm+"/len", label, "%d values for %d candles", len(d.v), n)
			return
		}
		for i, x := range k.Candles {
			if !near(d.v[i], d.f(x), tol, 0) {
				c.Fail(d.nm, label, "[%d] = %v, expected %v", i, d.v[i], d.f(x))
				return
			}
		}
	}
	h := k.ToHeikinAshi()
	if len(h.Candles) != n || h.Interval != k.Interval || h.Exchange != k.Exchange || h.Symbol != k.Symbol || h.Code != k.Code {
		c.Fail("HeikinAshi/header", label, "%d candles for %d, header %s %s %s %v", len(h.Candles), n, h.Exchange, h.Symbol, h.Code, h.Interval)
		return
	}
	po, pc := 0.0, 0.0
	for i, x := range k.Candles {
		op := (x.Open + x.Close) / 2
		if i > 0 {
			op = (po + pc) / 2
		}
		cl := (x.Open + x.High + x.Low + x.Close) / 4
		w := [4]float64{op, math.Max(x.High, math.Max(op, cl)), math.Min(x.Low, math.Min(op, cl)), cl}
		g := h.Candles[i]
		for q, y := range [4]float64{g.Open, g.High, g.Low, g.Close} {
			if !near(y, w[q], 1e-11, 0) {
				c.Fail("HeikinAshi", label, "candle %d of a %s series: %s %v, expected %v", i, kind, []string{"open", "high", "low", "close"}[q], y, w[q])
				return
			}
		}
		if g.TimeUnix != x.TimeUnix {
			c.Fail("HeikinAshi/time", label, "candle %d opens at %d, its source at %d", i, g.TimeUnix, x.TimeUnix)
			return
		}
		// the change and the direction are those of the candle it was made from
		if ch := (x.Close - x.Open) / x.Open; !near(g.ChangePercent, ch, 1e-9, 1e-12) || g.IsBullMarket != (x.Close > x.Open) {
			c.Fail("HeikinAshi/change", label, "candle %d (open %v close %v): change %v, bull %v", i, x.Open, x.Close, g.ChangePercent, g.IsBullMarket)
			return
		}
		po, pc = op, cl
	}
	if d := itemDiff(before, k); d != "" {
		c.Fail("derived/input", label, "the source changed: %s", d)
	}
	// what was handed out is the caller's own
	for i := range o.Close {
		o.Close[i], o.TimeUnix[i] = -1, -1
		h.Candles[i].Close = -1
	}
	if d := itemDiff(before, k); d != "" {
		c.Fail("derived/shared", label, "writing to an extracted column or Heikin-Ashi candle changed the source: %s", d)
	}
	c.Count("candles compared", n)
}

// hugeRange splits a span of so many candles that 32-bit arithmetic cannot count them exactly.
func hugeRange(c *Ctx, r *Rng, label string, j int) {
	iv := Pick(r, []klines.Interval{klines.TenSecond, klines.OneMin})
	d := iv.Duration()
	start := time.Unix(1000000000+int64(r.Intn(300000000)), 0).UTC().Truncate(d)
	cnt := 1<<24 + 1 + 2*r.Intn(200000)
	limit := []int{cnt - 1, cnt / 2, 1 << 23, 5000000}[j%4]
	h, err := klines.CalculateCandleDateRanges(start, start.Add(time.Duration(cnt)*d), iv, uint32(limit))
	if err != nil {
		c.Fail("ranges/error", label, "%d intervals of %v, limit %d: %v", cnt, iv, limit, err)
		return
	}
	if want := (cnt + limit - 1) / limit; len(h.Ranges) != want {
		c.Fail("ranges/count", label, "%d intervals of %v, limit %d: %d ranges, expected %d", cnt, iv, limit, len(h.Ranges), want)
		return
	}
	at, total := start.Unix(), 0
	for i := range h.Ranges {
		g := &h.Ranges[i]
		total += len(g.Intervals)
		for j := range g.Intervals {
			x := &g.Intervals[j]
			if x.Start.Ticks != at || x.End.Ticks != at+int64(d.Seconds()) || len(g.Intervals) > limit {
				c.Fail("ranges/interval", label, "%d intervals of %v, limit %d: interval %d of range %d spans %d to %d, expected from %d", cnt, iv, limit, j, i, x.Start.Ticks, x.End.Ticks, at)
				return
			}
			at = x.End.Ticks
		}
	}
	if total != cnt {
		c.Fail("ranges/total", label, "%d intervals of %v, limit %d: %d intervals", cnt, iv, limit, total)
	}
	c.Count("intervals walked", total)
	c.Seen(hash64(label, cnt, limit))
}

func rangeCase(c *Ctx, r *Rng, label string) {
	iv := Pick(r, []klines.Interval{klines.TenSecond, klines.OneMin, klines.FiveMin, klines.ThirtyMin, klines.OneHour, klines.FourHour, klines.OneDay, klines.OneWeek})
	switch {
	case r.Chance(0.2):
		if x := namedIntervals[Pick(r, sortedKeys(namedIntervals))].iv; x.Duration() >= time.Second { // candles carry whole seconds
			iv = x
		}
	case r.Chance(0.1):
		iv = klines.Interval(time.Duration(r.Range(1, 100000)) * time.Second)
	}
	d := iv.Duration()
	start := time.Unix(1400000000+int64(r.Intn(300000000)), 0).UTC().Truncate(d)
	if r.Chance(0.15) { // before 1970, around the 32-bit limits
		start = time.Unix(Pick(r, []int64{-1500000000, 0, 1 << 31, 1 << 32})+int64(r.Intn(200000))-100000, 0).UTC().Truncate(d)
	}
	cnt := r.Range(1, 200)
	limit := uint32(Pick(r, []int{0, 1, 2, 3, 7, 10, 50, 100, 199, 200, 500, 100000, cnt, cnt, max(1, cnt-1), cnt + 1, max(1, cnt/2)}))
	if r.Chance(0.12) { // the request sizes of real exchanges, with every kind of remainder
		limit = uint32(Pick(r, []int{300, 500, 720, 1000, 1440, 1500, 2000, 5000, r.Range(2, 3000)}))
		cnt = max(1, int(limit)*r.Range(1, max(2, 12000/int(limit)))+Pick(r, []int{-2, -1, 0, 0, 1, 1, 2, r.Intn(int(limit))}))
	}
	if r.Chance(0.03) { // very many requests
		limit, cnt = uint32(r.Range(1, 4)), r.Range(800, 6000)
	}
	cnt = max(1, min(cnt, int(100*365*24*time.Hour/d))) // a time.Duration holds 292 years
	if r.Chance(0.3) {
		start = start.In(time.FixedZone("", Pick(r, []int{-5, 1, 8, 9})*3600))
	}
	end := start.Add(time.Duration(cnt) * d)
	future := r.Chance(0.05)
	if future {
		sh := time.Duration(40000*24) * time.Hour
		start = start.Add(sh).Truncate(d)
		end = start.Add(time.Duration(cnt) * d)
	}
	if start.Unix() == 0 || end.Unix() == 0 { // the package takes this instant for "no date given"
		start, end = start.Add(d), end.Add(d)
		if start.Unix() == 0 || end.Unix() == 0 {
			return
		}
	}
	ctx := fmt.Sprintf("%d intervals of %v from %v, limit %d", cnt, iv, start, limit)
	if t := klines.TotalCandlesPerInterval(start, end.Add(time.Duration(r.Intn(int(d)))), iv); t != int64(cnt) {
		c.Fail("TotalCandlesPerInterval", label, "%s: %d candles", ctx, t)
	}
	if t := klines.TotalCandlesPerInterval(start, end, 0); t != 0 {
		c.Fail("TotalCandlesPerInterval/zero", label, "%d candles of no length", t)
	}
	switch r.Intn(8) {
	case 0:
		if _, err := klines.CalculateCandleDateRanges(end, start, iv, limit); !errors.Is(err, commonutils.ErrStartAfterEnd) {
			c.Fail("ranges/reversed", label, "start after end: %v", err)
		}
		if _, err := klines.CalculateCandleDateRanges(start, start, iv, limit); !errors.Is(err, commonutils.ErrStartEqualsEnd) {
			c.Fail("ranges/equal", label, "start equals end: %v", err)
		}
		if _, err := klines.CalculateCandleDateRanges(time.Time{}, end, iv, limit); !errors.Is(err, commonutils.ErrDateUnset) {
			c.Fail("ranges/unset", label, "unset start: %v", err)
		}
		if _, err := klines.CalculateCandleDateRanges(start, end, 0, limit); !errors.Is(err, klines.ErrInvalidInterval) {
			c.Fail("ranges/interval", label, "no interval: %v", err)
		}
		c.Count("refusals observed", 4)
	}
	askStart, askEnd := start, end
	if r.Chance(0.25) { // asked for off the boundaries: the nearest boundaries are meant
		off := func() time.Duration {
			h := max(1, int(d/time.Second/2))
			return time.Duration(r.Range(-h+1, h-1)) * time.Second
		}
		if a, b := start.Add(off()), end.Add(off()); a.Before(b) && a.Unix() != 0 && b.Unix() != 0 {
			askStart, askEnd = a, b
			c.Count("spans off the boundaries", 1)
		}
	}
	h, err := klines.CalculateCandleDateRanges(askStart, askEnd, iv, limit)
	if err != nil {
		c.Fail("ranges/error", label, "%s: %v", ctx, err)
		return
	}
	if !h.Start.Time.Equal(start) || !h.End.Time.Equal(end) || h.Start.Ticks != start.Unix() || h.End.Ticks != end.Unix() {
		c.Fail("ranges/window", label, "%s: window %v to %v", ctx, h.Start.Time, h.End.Time)
		return
	}
	want := 1
	if limit > 0 {
		want = (cnt + int(limit) - 1) / int(limit)
	}
	if len(h.Ranges) != want {
		c.Fail("ranges/count", label, "%s: %d ranges, expected %d", ctx, len(h.Ranges), want)
		return
	}
	t := start
	total := 0
	flags := map[int64]bool{}
	for i := range h.Ranges {
		g := &h.Ranges[i]
		if !g.Start.Time.Equal(t) || g.Start.Ticks != t.Unix() {
			c.Fail("ranges/contiguous", label, "%s: range %d starts at %v, expected %v", ctx, i, g.Start.Time, t)
			return
		}
		if limit > 0 && len(g.Intervals) > int(limit) {
			c.Fail("ranges/limit", label, "%s: range %d holds %d intervals", ctx, i, len(g.Intervals))
			return
		}
		for j := range g.Intervals {
			x := &g.Intervals[j]
			e := t.Add(d)
			if !x.Start.Time.Equal(t) || !x.End.Time.Equal(e) || x.Start.Ticks != t.Unix() || x.End.Ticks != e.Unix() {
				c.Fail("ranges/interval", label, "%s: interval %d of range %d spans %v to %v, expected %v to %v", ctx, j, i, x.Start.Time, x.End.Time, t, e)
				return
			}
			if x.HasData {
				c.Fail("ranges/flag", label, "%s: a fresh interval claims data", ctx)
				return
			}
			x.HasData = r.Chance(0.5)
			flags[t.Unix()] = x.HasData
			t = e
			total++
		}
		if !g.End.Time.Equal(t) || g.End.Ticks != t.Unix() {
			c.Fail("ranges/end", label, "%s: range %d ends at %v, expected %v", ctx, i, g.End.Time, t)
			return
		}
	}
	if total != cnt {
		c.Fail("ranges/total", label, "%s: %d intervals", ctx, total)
		return
	}
	for q := 0; q < 60; q++ {
		at := start.Add(time.Duration(r.Range(-2, cnt+2)) * d)
		switch r.Intn(4) {
		case 1:
			at = at.Add(d - time.Second)
		case 2:
			at = at.Add(time.Duration(r.Intn(int(d/time.Second))) * time.Second)
		case 3:
			at = at.Add(-time.Second)
		}
		if r.Chance(0.2) {
			at = at.Add(time.Duration(r.Intn(1000000000)))
		}
		w := flags[at.Truncate(d).Unix()] && !at.Before(start) && at.Before(end)
		if g := h.HasDataAtDate(at); g != w {
			c.Fail("HasDataAtDate", label, "%s: %v has data %v, expected %v", ctx, at, g, w)
			return
		}
	}
	it := klines.CreateIntervalTime(start)
	if !it.Equal(start) || it.Equal(end) || !it.Equal(start.In(time.FixedZone("y", 7200))) {
		c.Fail("IntervalTime/Equal", label, "%v", start)
	}
	c.Count("intervals observed", total)
	c.Count("instants asked", 60)
	if cnt > 1 {
		c.Seen(hash64(label, cnt, limit, start.Unix()))
	}
}

func utilCase(c *Ctx, r *Rng, label, dir string) {
	x := r.Norm() * math.Pow(10, float64(r.Range(-8, 12)))
	str := strconv.FormatFloat(x, Pick(r, []byte{'g', 'e', 'f'}), -1, 64)
	if g, err := commonutils.FloatFromString(str); err != nil || g != x {
		c.Fail("FloatFromString", label, "%q gives %v, %v", str, g, err)
	}
	for _, bad := range []any{str + "x", " " + str, str + " ", str + "\n", "", "1,5", x, int(5), nil, []byte(str), "--1"} {
		if g, err := commonutils.FloatFromString(bad); err == nil {
			c.Fail("FloatFromString/bad", label, "%#v gives %v without an error", bad, g)
		}
	}
	// the textual forms of a candle and of a directional record
	cd := klines.Candle{Open: r.F() * 100, High: 100 + r.F()*1e6, Low: r.F() * 1e-3, Close: r.F() * 50, Volume: r.F() * 1e9, ChangePercent: r.Norm(), IsBullMarket: r.Chance(0.5), TimeUnix: int64(r.Range(-2000000000, 2000000000)) * int64(r.Range(1, 3))}
	at := time.Unix(cd.TimeUnix, 0).In(time.Local).Format("2006-01-02 15:04:05")
	if g, w := cd.String(), fmt.Sprintf("%s Open:%f High:%f Low:%f Close:%f Volume:%f Bull:%t ChangePercent:%.4f%%", at, cd.Open, cd.High, cd.Low, cd.Close, cd.Volume, cd.IsBullMarket, cd.ChangePercent*100); g != w {
		c.Fail("Candle.String", label, "%q, expected %q", g, w)
	}
	ad := trend.AverageDirectionalIndexData{Time: time.Unix(cd.TimeUnix, 0), DIPlus: cd.Open, DIMins: cd.Close, ADX: cd.Low}
	if g, w := ad.String(), fmt.Sprintf("[%s]DI+:%f DI-:%f ADX:%f", at, cd.Open, cd.Close, cd.Low); g != w {
		c.Fail("AverageDirectionalIndexData.String", label, "%q, expected %q", g, w)
	}
	exp := int32(r.Range(-8, 2))
	y := r.Norm() * math.Pow(10, float64(r.Range(-3, 6)))
	if r.Chance(0.3) { // extreme values and digits
		y = r.Norm() * math.Pow(10, float64(r.Range(-20, 300)))
		exp = int32(r.Range(-25, 12))
	}
	u := math.Pow(10, float64(exp))
	g := commonutils.FormatDecimalFloat64(y, exp)
	if k := g / u; math.Abs(g-y) > 0.5*u*(1+1e-6)+1e-12*math.Abs(y) || math.Abs(k-math.Round(k)) > 1e-6+1e-11*math.Abs(k) {
		c.Fail("FormatDecimalFloat64", label, "%v at 10^%d gives %v", y, exp, g)
	}
	if a, b := commonutils.If(true, x, str), commonutils.If(false, x, str); a != any(x) || b != any(str) {
		c.Fail("If", label, "If(true)=%v If(false)=%v", a, b)
	}
	if a, b := commonutils.If(true, nil, x), commonutils.If(false, x, nil); a != nil || b != nil {
		c.Fail("If/nil", label, "If(true, nil, x)=%v If(false, x, nil)=%v", a, b)
	}
	// files and JSON: what was written is what is read
	nc := r.Range(0, 12)
	if r.Chance(0.004) {
		nc = r.Range(500, 3000) // beyond any buffer
	}
	s := GenSeries(r, Pick(r, kindsAll), nc)
	js, _ := json.Marshal(s.K.Candles)
	fn := filepath.Join(dir, fmt.Sprint("f", r.Intn(8)))
	if err := os.WriteFile(fn, js, 0o600); err != nil {
		panic(err)
	}
	back, err := commonutils.ReadFile(fn)
	if err != nil || string(back) != string(js) {
		c.Fail("ReadFile", label, "read %d of %d bytes, error %v", len(back), len(js), err)
	}
	if b, err := commonutils.ReadFile(filepath.Join(dir, "missing")); err == nil {
		c.Fail("ReadFile/missing", label, "a missing file reads as %d bytes without an error", len(b))
	}
	var cs []*klines.Candle
	if err := commonutils.JSONDecode(back, &cs); err != nil || len(cs) != len(s.K.Candles) {
		c.Fail("JSONDecode", label, "%d of %d candles, error %v", len(cs), len(s.K.Candles), err)
	} else {
		for i := range cs {
			if *cs[i] != *s.K.Candles[i] {
				c.Fail("JSONDecode", label, "candle %d: %+v, written %+v", i, *cs[i], *s.K.Candles[i])
				break
			}
		}
	}
	if err := commonutils.JSONDecode(js, klines.Candle{}); err == nil {
		c.Fail("JSONDecode/pointer", label, "no error when decoding into a value")
	}
	if err := commonutils.JSONDecode([]byte(strings.Repeat("[", r.Range(1, 3))), &cs); err == nil {
		c.Fail("JSONDecode/bad", label, "no error for truncated input")
	}
	bad := []string{"", " ", "{", "nul", "[1", "[{}", `[{"Open":}]`, `[{"Open":1,}]`, `[{"Open":"x"}]`, `[{"Open":1}`, `{"Open":1}`, `"x"`, "1", string(js) + "]", string(js[:len(js)-1])}
	if n := len(js); n > 2 {
		bad = append(bad, string(js[:r.Range(1, n-1)]))
	}
	for _, b := range bad {
		var cs []*klines.Candle
		if err := commonutils.JSONDecode([]byte(b), &cs); err == nil {
			c.Fail("JSONDecode/malformed", label, "%.80q (%d bytes) decodes to %d candles without an error", b, len(b), len(cs))
		}
	}
	if err := os.WriteFile(fn, nil, 0o600); err != nil {
		panic(err)
	}
	if b, err := commonutils.ReadFile(fn); err != nil || len(b) != 0 {
		c.Fail("ReadFile/empty", label, "an empty file reads as %d bytes, error %v", len(b), err)
	}
	if b, err := commonutils.ReadFile(dir); err == nil {
		c.Fail("ReadFile/directory", label, "a directory reads as %d bytes without an error", len(b))
	}
	// date checks
	now := time.Now()
	past := now.Add(-time.Duration(1+r.Intn(1000000)) * time.Minute)
	later := past.Add(time.Duration(1 + r.Intn(30000000000)))
	zero := Pick(r, []time.Time{{}, time.Unix(0, 0), time.Unix(0, 0).UTC()})
	for _, q := range []struct {
		a, b time.Time
		want error
	}{
		{past, later, nil}, {past, now.Add(time.Hour), nil}, {later, past, commonutils.ErrStartAfterEnd}, {past, past, commonutils.ErrStartEqualsEnd},
		{past, past.In(time.FixedZone("z", -3600)), commonutils.ErrStartEqualsEnd},
		{zero, later, commonutils.ErrDateUnset}, {past, zero, commonutils.ErrDateUnset}, {zero, zero, commonutils.ErrDateUnset},
		{now.Add(48 * time.Hour), now.Add(49 * time.Hour), commonutils.ErrStartAfterTimeNow},
		{now.Add(40 * time.Second), now.Add(41 * time.Second), commonutils.ErrStartAfterTimeNow},
		{now.Add(-time.Second), now.Add(time.Hour), nil}, {past, past.Add(1), nil}, {past.Add(1), past, commonutils.ErrStartAfterEnd},
		{zero.In(time.FixedZone("z", 7200)), later, commonutils.ErrDateUnset}, {zero.Add(time.Second), later, nil}, {zero.Add(-time.Second), later, nil},
	} {
		err := commonutils.StartEndTimeCheck(q.a, q.b)
		if q.want == nil && err != nil || q.want != nil && !errors.Is(err, q.want) {
			c.Fail("StartEndTimeCheck", label, "%v to %v: %v, expected %v", q.a, q.b, err, q.want)
		}
	}
	c.Count("helper calls compared", 30)
	c.Seen(hash64(label, x, y))
}
