package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

// P is one parameter set of an indicator.
type P []float64

func (p P) I(i int) int { return int(p[i]) }

// Spec describes how to drive one indicator through its public API.
type Spec struct {
	Name     string
	Def      P              // documented defaults
	Rand     func(r *Rng) P // realistic random parameters
	New      func(k *klines.Item, p P) any
	NewDef   func(k *klines.Item) any
	NewOHLC  func(o *klines.OHLC, k *klines.Item, p P) any
	Acc      map[string][]string // accessor -> columns it must reproduce
	Pow      map[string][2]float64
	MaxN     int
	Ref      func(s *Series, p P) *RefOut
	Step     func(s *Series, p P, rep *Frame) *RefOut         // one step at a time from the reported state
	Rule     func(f *Frame, s *Series, p P, i int) utils.Side // expected signal from the indicator's own records
	SideOHLC bool
}

// camSide adapts Camarilla, whose AnalysisSide takes the candles to judge.
type camSide struct {
	*oscillator.Camarilla
	k *klines.Item
}

func (c camSide) AnalysisSide() utils.SideData { return c.Camarilla.AnalysisSide(c.k) }

// Frame is the recorded output of an indicator: one row per record.
type Frame struct {
	Cols []string
	V    map[string][]float64
	T    []int64
	Zero []bool // record carries a zero time.Time
	N    int
	Pub  string // results published in exported fields
}

func (f *Frame) Row(i int) string {
	var b strings.Builder
	for _, c := range f.Cols {
		fmt.Fprintf(&b, "%s=%v ", c, f.V[c][i])
	}
	return b.String()
}

var timeT = reflect.TypeOf(time.Time{})

// ToFrame flattens a []XData or []*XData slice.
func ToFrame(data any) *Frame {
	v := reflect.ValueOf(data)
	f := &Frame{V: map[string][]float64{}, N: v.Len()}
	f.T = make([]int64, f.N)
	f.Zero = make([]bool, f.N)
	put := func(c string, i int, x float64) {
		if _, ok := f.V[c]; !ok {
			f.Cols = append(f.Cols, c)
			f.V[c] = make([]float64, f.N)
		}
		f.V[c][i] = x
	}
	var walk func(pre string, x reflect.Value, i int)
	walk = func(pre string, x reflect.Value, i int) {
		switch x.Kind() {
		case reflect.Float64:
			put(pre, i, x.Float())
		case reflect.Bool:
			if x.Bool() {
				put(pre, i, 1)
			} else {
				put(pre, i, 0)
			}
		case reflect.Int, reflect.Int64, reflect.Int32:
			put(pre, i, float64(x.Int()))
		case reflect.Uint32:
			put(pre, i, float64(x.Uint()))
		case reflect.Slice:
			for j := 0; j < x.Len(); j++ {
				walk(fmt.Sprintf("%s%d", pre, j), x.Index(j), i)
			}
		case reflect.Ptr:
			if !x.IsNil() {
				walk(pre, x.Elem(), i)
			}
		case reflect.Struct:
			if x.Type() == timeT {
				tm := x.Interface().(time.Time)
				f.T[i] = tm.Unix()
				f.Zero[i] = tm.IsZero()
				return
			}
			for j := 0; j < x.NumField(); j++ {
				n := x.Type().Field(j).Name
				if pre != "" {
					n = pre + "." + n
				}
				walk(n, x.Field(j), i)
			}
		}
	}
	for i := 0; i < f.N; i++ {
		walk("", v.Index(i), i)
	}
	return f
}

func callM(obj any, name string, args ...any) []reflect.Value {
	m := reflect.ValueOf(obj).MethodByName(name)
	if !m.IsValid() {
		return nil
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	return m.Call(in)
}

func GetData(obj any) *Frame {
	f := ToFrame(callM(obj, "GetData")[0].Interface())
	f.Pub = pubState(obj)
	return f
}

// pubState renders the results an indicator publishes in its exported fields (lists and structures;
// SmartMoneyConcepts' order blocks and levels).
func pubState(obj any) string {
	v := reflect.Indirect(reflect.ValueOf(obj))
	if v.Kind() != reflect.Struct {
		return ""
	}
	var b strings.Builder
	for i := 0; i < v.NumField(); i++ {
		fl := v.Type().Field(i)
		if !fl.IsExported() || fl.Anonymous {
			continue
		}
		switch fl.Type.Kind() {
		case reflect.Slice:
			if v.Field(i).Len() == 0 { // nil or empty
				fmt.Fprintf(&b, "%s=[] ", fl.Name)
				continue
			}
			fallthrough
		case reflect.Struct, reflect.Array, reflect.Map:
			fmt.Fprintf(&b, "%s=%+v ", fl.Name, v.Field(i).Interface())
		}
	}
	return b.String()
}

func Calc(obj any) { callM(obj, "Calculation") }
func SideOf(obj any) (utils.SideData, bool) {
	if s, ok := obj.(utils.IStrategy); ok {
		return s.AnalysisSide(), true
	}
	return utils.SideData{}, false
}

// sameFrame reports the first difference; tol is relative to the larger magnitude (and abs floor).
func diffFrame(a, b *Frame, n int, tol, floor float64) string {
	if n == a.N && n == b.N && a.Pub != b.Pub {
		return fmt.Sprintf("published lists: %.300s vs %.300s", a.Pub, b.Pub)
	}
	for _, c := range unionCols(a, b) {
		x, y := a.V[c], b.V[c]
		for i := 0; i < n; i++ {
			var p, q float64
			if x != nil && i < len(x) {
				p = x[i]
			}
			if y != nil && i < len(y) {
				q = y[i]
			}
			if !near(p, q, tol, floor) {
				return fmt.Sprintf("%s[%d]: %v vs %v", c, i, p, q)
			}
		}
	}
	for i := 0; i < n; i++ {
		if a.T[i] != b.T[i] {
			return fmt.Sprintf("Time[%d]: %d vs %d", i, a.T[i], b.T[i])
		}
	}
	return ""
}

func unionCols(a, b *Frame) []string {
	out := append([]string{}, a.Cols...)
	for _, c := range b.Cols {
		if _, ok := a.V[c]; !ok {
			out = append(out, c)
		}
	}
	return out
}

func near(p, q, tol, floor float64) bool {
	if p == q || (math.IsNaN(p) && math.IsNaN(q)) {
		return true
	}
	if math.IsNaN(p) || math.IsNaN(q) || math.IsInf(p, 0) || math.IsInf(q, 0) {
		return false
	}
	return math.Abs(p-q) <= tol*math.Max(math.Abs(p), math.Abs(q))+floor
}

func all(a, b float64, cols ...string) map[string][2]float64 {
	m := map[string][2]float64{}
	for _, c := range cols {
		m[c] = [2]float64{a, b}
	}
	return m
}

func ri(r *Rng, a, b int) float64 { return float64(r.Range(a, b)) }

// wide picks from the ordinary range, one time in six from a far wider one.
func wide(r *Rng, a, b, wa, wb int) float64 {
	if r.Intn(6) == 0 {
		return ri(r, wa, wb)
	}
	return ri(r, a, b)
}

func b2i(b float64) bool { return b != 0 }

var specs []*Spec
var specBy = map[string]*Spec{}

func add(s *Spec) {
	specs = append(specs, s)
	specBy[s.Name] = s
}

func one(lo, hi int) func(r *Rng) P { return func(r *Rng) P { return P{ri(r, lo, hi)} } }
func none(r *Rng) P                 { return P{} }

func init() {
	// channel
	add(&Spec{Name: "Boll", Def: P{20, 2}, Rand: func(r *Rng) P { return P{ri(r, 1, 40), wide(r, 1, 4, 0, 30)} },
		New:    func(k *klines.Item, p P) any { return channel.NewBoll(k, p.I(0), p.I(1)) },
		NewDef: func(k *klines.Item) any { return channel.NewDefaultBoll(k) },
		Pow:    all(1, 0, "Upper", "Middle", "Lower", "MD")})
	add(&Spec{Name: "DonchianChannel", Def: P{20}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return channel.NewDonchianChannel(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return channel.NewDefaultDonchianChannel(k) },
		Pow:    all(1, 0, "Upper", "Middle", "Lower")})
	add(&Spec{Name: "KeltnerChannel", Def: P{20}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return channel.NewKeltnerChannel(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return channel.NewDefaultKeltnerChannel(k) },
		Pow:    all(1, 0, "Upper", "Middle", "Lower")})
	add(&Spec{Name: "UlcerIndex", Def: P{14}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return channel.NewUlcerIndex(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return channel.NewDefaultUlcerIndex(k) },
		Pow:    all(0, 0, "Value")})
	// volume
	add(&Spec{Name: "AccumulationDistribution", Def: P{}, Rand: none,
		New:    func(k *klines.Item, p P) any { return volume.NewAccumulationDistribution(k) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultAccumulationDistribution(k) },
		Acc:    map[string][]string{"GetValues": {"Value"}}, Pow: all(0, 1, "Value")})
	add(&Spec{Name: "ChaikinMoneyFlow", Def: P{20}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return volume.NewChaikinMoneyFlow(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultChaikinMoneyFlow(k) }, Pow: all(0, 0, "Value")})
	add(&Spec{Name: "EaseOfMovement", Def: P{14}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return volume.NewEaseOfMovement(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultEaseOfMovement(k) }, Pow: all(2, -1, "Value")})
	add(&Spec{Name: "ForceIndex", Def: P{13}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return volume.NewForceIndex(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultForceIndex(k) }, Pow: all(1, 1, "Value")})
	add(&Spec{Name: "MoneyFlowIndex", Def: P{14}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return volume.NewMoneyFlowIndex(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultMoneyFlowIndex(k) }, Pow: all(0, 0, "Value")})
	add(&Spec{Name: "NegativeVolumeIndex", Def: P{}, Rand: none,
		New:    func(k *klines.Item, p P) any { return volume.NewNegativeVolumeIndex(k) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultNegativeVolumeIndex(k) }, Pow: all(0, 0, "Value")})
	add(&Spec{Name: "Obv", Def: P{}, Rand: none,
		New: func(k *klines.Item, p P) any { return volume.NewObv(k) }, Pow: all(0, 1, "Value")})
	add(&Spec{Name: "VolumePriceTrend", Def: P{14}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return volume.NewVolumePriceTrend(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultVolumePriceTrend(k) }, Pow: all(0, 1, "Value")})
	add(&Spec{Name: "Vwma", Def: P{5}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return volume.NewVwma(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return volume.NewDefaultVwma(k) }, Pow: all(1, 0, "Value")})
	// oscillator
	add(&Spec{Name: "AbsolutePriceOscillator", Def: P{}, Rand: none,
		New:    func(k *klines.Item, p P) any { return oscillator.NewAbsolutePriceOscillator(k) },
		NewDef: func(k *klines.Item) any { return oscillator.NewAbsolutePriceOscillator(k) }, Pow: all(1, 0, "Value")})
	add(&Spec{Name: "AwesomeOscillator", Def: P{}, Rand: none,
		New:    func(k *klines.Item, p P) any { return oscillator.NewAwesomeOscillator(k) },
		NewDef: func(k *klines.Item) any { return oscillator.NewAwesomeOscillator(k) }, Pow: all(1, 0, "Value")})
	add(&Spec{Name: "Camarilla", Def: P{8}, Rand: one(1, 30),
		New:    func(k *klines.Item, p P) any { return camSide{oscillator.NewCamarilla(k, p.I(0)), k} },
		NewDef: func(k *klines.Item) any { return camSide{oscillator.NewDefaultCamarilla(k), k} },
		Pow:    all(1, 0, "EMA", "Pivot", "High1", "High2", "High3", "High4", "High5", "High6", "Low1", "Low2", "Low3", "Low4", "Low5", "Low6")})
	add(&Spec{Name: "ChaikinOscillator", Def: P{3, 10}, Rand: func(r *Rng) P { return P{ri(r, 1, 12), ri(r, 2, 30)} },
		New:    func(k *klines.Item, p P) any { return oscillator.NewChaikinOscillator(k, p.I(0), p.I(1)) },
		NewDef: func(k *klines.Item) any { return oscillator.NewDefaultChaikinOscillator(k) }, Pow: all(0, 1, "Value", "AD")})
	add(&Spec{Name: "IchimokuCloud", Def: P{20, 60, 120}, Rand: func(r *Rng) P { return P{ri(r, 1, 20), ri(r, 2, 60), ri(r, 1, 60)} },
		New:    func(k *klines.Item, p P) any { return oscillator.NewIchimokuCloud(k, p.I(0), p.I(1), p.I(2)) },
		NewDef: func(k *klines.Item) any { return oscillator.NewDefaultIchimokuCloud(k) },
		Pow:    all(1, 0, "ConversionLine", "BaseLine", "LeadingSpanA", "LeadingSpanB", "LaggingLine")})
	add(&Spec{Name: "PercentagePriceOscillator", Def: P{12, 26, 9}, Rand: func(r *Rng) P { return P{ri(r, 1, 15), ri(r, 2, 40), ri(r, 1, 15)} },
		New: func(k *klines.Item, p P) any {
			return oscillator.NewPercentagePriceOscillator(k, p.I(0), p.I(1), p.I(2))
		},
		NewDef: func(k *klines.Item) any { return oscillator.NewDefaultPercentagePriceOscillator(k) }, Pow: all(0, 0, "PPO", "Signal", "Histogram")})
	add(&Spec{Name: "ProjectionOscillator", Def: P{13, 3}, Rand: func(r *Rng) P { return P{ri(r, 1, 30), ri(r, 1, 10)} },
		New:    func(k *klines.Item, p P) any { return oscillator.NewProjectionOscillator(k, p.I(0), p.I(1)) },
		NewDef: func(k *klines.Item) any { return oscillator.NewDefaultProjectionOscillator(k) }, Pow: all(0, 0, "Po", "Spo")})
	add(&Spec{Name: "StochasticOscillator", Def: P{14}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return oscillator.NewStochasticOscillator(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return oscillator.NewDefaultStochasticOscillator(k) },
		Acc:    map[string][]string{"GetValues": {"K", "D"}}, Pow: all(0, 0, "K", "D")})
	add(&Spec{Name: "VolumeOscillator", Def: P{5, 10}, Rand: func(r *Rng) P { return P{ri(r, 1, 15), ri(r, 2, 40)} },
		New:    func(k *klines.Item, p P) any { return oscillator.NewVolumeOscillator(k, p.I(0), p.I(1)) },
		NewDef: func(k *klines.Item) any { return oscillator.NewDefaultVolumeOscillator(k) },
		Acc:    map[string][]string{"GetValues": {"Value"}}, Pow: all(0, 0, "Value")})
	add(&Spec{Name: "WilliamsR", Def: P{14}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return oscillator.NewWilliamsR(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return oscillator.NewDefaultWilliamsR(k) }, Pow: all(0, 0, "Value")})
	// trend
	add(&Spec{Name: "AiCoinCCI", Def: P{20}, Rand: one(2, 40),
		New:    func(k *klines.Item, p P) any { return trend.NewAiCoinCCI(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultAiCoinCCI(k) },
		Acc:    map[string][]string{"GetValue": {"Value"}}, Pow: all(0, 0, "Value")})
	add(&Spec{Name: "Atr", Def: P{14}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return trend.NewAtr(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultAtr(k) },
		Acc:    map[string][]string{"GetValues": {"TR", "Atr"}}, Pow: all(1, 0, "TR", "Atr")})
	add(&Spec{Name: "AverageDirectionalIndex", Def: P{30, 14}, Rand: func(r *Rng) P { return P{ri(r, 1, 40), ri(r, 1, 30)} },
		New:    func(k *klines.Item, p P) any { return trend.NewAverageDirectionalIndex(k, p.I(0), p.I(1)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultAverageDirectionalIndex(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any {
			return trend.NewAverageDirectionalIndexOHLC(o, p.I(0), p.I(1))
		},
		Pow: all(0, 0, "DIPlus", "DIMins", "ADX")})
	add(&Spec{Name: "BreakoutProbability", Def: P{1.2, 5}, Rand: func(r *Rng) P { return P{wide(r, 1, 40, 0, 900) / 16, ri(r, 1, 5)} },
		New:    func(k *klines.Item, p P) any { return trend.NewBreakoutProbability(k, p[0], p.I(1)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultBreakoutProbability(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any {
			return trend.NewBreakoutProbabilityOHLC(o, p[0], p.I(1))
		},
		Pow: func() map[string][2]float64 {
			m := all(0, 0, "Win", "Loss")
			for i := 0; i < 10; i++ {
				m[fmt.Sprintf("List%d.Price", i)] = [2]float64{1, 0}
				m[fmt.Sprintf("List%d.Per", i)] = [2]float64{0, 0}
				m[fmt.Sprintf("List%d.Up", i)] = [2]float64{0, 0}
			}
			return m
		}()})
	add(&Spec{Name: "Cci", Def: P{20, 20}, Rand: func(r *Rng) P { return P{ri(r, 2, 40), ri(r, 2, 40)} },
		New:    func(k *klines.Item, p P) any { return trend.NewCci(k, p.I(0), p.I(1)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultCci(k) },
		Acc:    map[string][]string{"GetValue": {"Value"}}, Pow: all(0, 0, "Value")})
	add(&Spec{Name: "Dema", Def: P{20}, Rand: one(1, 40),
		New:     func(k *klines.Item, p P) any { return trend.NewDema(k, p.I(0)) },
		NewDef:  func(k *klines.Item) any { return trend.NewDefaultDema(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any { return trend.NewDemaOHLC(o, p.I(0)) },
		Acc:     map[string][]string{"GetValues": {"Value"}}, Pow: all(1, 0, "Value")})
	add(&Spec{Name: "EMAVegas", Def: P{12, 144, 169, 575, 676},
		Rand:   func(r *Rng) P { return P{ri(r, 2, 6), ri(r, 3, 12), ri(r, 6, 16), ri(r, 10, 30), ri(r, 20, 50)} },
		New:    func(k *klines.Item, p P) any { return trend.NewEMAVegas(k, p.I(0), p.I(1), p.I(2), p.I(3), p.I(4)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultEMAVegas(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any {
			return trend.NewEMAVegasOHLC(o, p.I(0), p.I(1), p.I(2), p.I(3), p.I(4))
		},
		Pow: all(1, 0, "Value", "Short1Value", "Short2Value", "Long1Value", "Long2Value")})
	add(&Spec{Name: "Ema", Def: P{5}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return trend.NewEma(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultEma(k) },
		Acc:    map[string][]string{"GetValues": {"Value"}}, Pow: all(1, 0, "Value")})
	add(&Spec{Name: "Kdj", Def: P{9}, Rand: one(1, 30),
		New:    func(k *klines.Item, p P) any { return trend.NewKdj(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultKdj(k) },
		Acc:    map[string][]string{"GetListK": {"K"}, "GetListD": {"D"}, "GetListJ": {"J"}}, Pow: all(0, 0, "RSV", "K", "D", "J")})
	add(&Spec{Name: "LinearRegressionCandles", Def: P{7, 11, 1}, Rand: func(r *Rng) P { return P{ri(r, 1, 20), ri(r, 1, 30), ri(r, 0, 1)} },
		New:    func(k *klines.Item, p P) any { return trend.NewLinearRegressionCandles(k, p.I(0), p.I(1), b2i(p[2])) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultLinearRegressionCandles(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any {
			return trend.NewLinearRegressionCandlesOHLC(o, p.I(0), p.I(1), b2i(p[2]))
		},
		Acc: map[string][]string{"GetValues": {"Signal"}}, Pow: all(1, 0, "Open", "Close", "High", "Low", "Signal")})
	add(&Spec{Name: "Ma", Def: P{20}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return trend.NewMa(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultMa(k) }, Pow: all(1, 0, "Value")})
	add(&Spec{Name: "Macd", Def: P{12, 9, 26}, Rand: func(r *Rng) P { return P{ri(r, 1, 15), ri(r, 1, 12), ri(r, 2, 40)} },
		New:    func(k *klines.Item, p P) any { return trend.NewMacd(k, p.I(0), p.I(1), p.I(2)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultMacd(k) },
		Acc:    map[string][]string{"GetDifs": {"DIF"}, "GetMACDs": {"Macd"}}, Pow: all(1, 0, "DIF", "DEA", "Macd")})
	add(&Spec{Name: "PivotPointSuperTrend", Def: P{3, 8, 2.8}, Rand: func(r *Rng) P { return P{ri(r, 1, 5), ri(r, 1, 20), wide(r, 2, 16, 0, 80) / 4} },
		New:    func(k *klines.Item, p P) any { return trend.NewPivotPointSuperTrend(k, p.I(0), p.I(1), p[2]) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultPivotPointSuperTrend(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any {
			return trend.NewPivotPointSuperTrendOHLC(o, p.I(0), p.I(1), p[2])
		},
		Acc: map[string][]string{"GetValues": {"UpTrend", "DownTrend"}}, Pow: all(1, 0, "UpTrend", "UpTrendBegin", "DownTrend", "DownTrendBegin")})
	add(&Spec{Name: "ReversalSignals", Def: P{}, Rand: none,
		New:    func(k *klines.Item, p P) any { return trend.NewReversalSignals(k) },
		NewDef: func(k *klines.Item) any { return trend.NewReversalSignals(k) }, Pow: all(0, 0, "Side")})
	add(&Spec{Name: "Rma", Def: P{13}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return trend.NewRma(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultRma(k) }, Pow: all(1, 0, "Value")})
	add(&Spec{Name: "Rsi", Def: P{14}, Rand: one(2, 30),
		New:    func(k *klines.Item, p P) any { return trend.NewRsi(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultRsi(k) },
		Acc:    map[string][]string{"GetValue": {"Value"}}, Pow: all(0, 0, "Value")})
	add(&Spec{Name: "Sma", Def: P{9}, Rand: one(1, 40),
		New:    func(k *klines.Item, p P) any { return trend.NewSma(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultSma(k) },
		Acc:    map[string][]string{"GetValues": {"Value"}}, Pow: all(1, 0, "Value")})
	add(&Spec{Name: "SmartMoneyConcepts", Def: P{50, 3, 1, 0}, Rand: func(r *Rng) P { return P{ri(r, 5, 30), wide(r, 1, 5, 1, 25), wide(r, 1, 5, 0, 20), ri(r, 0, 1)} },
		New: func(k *klines.Item, p P) any {
			m := trend.NewSmartMoneyConcepts(k, p.I(0), p.I(1), p.I(2))
			m.EQHEQL_Enable = b2i(p[3])
			return m
		},
		NewDef: func(k *klines.Item) any { return trend.NewDefaultSmartMoneyConcepts(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any {
			m := trend.NewSmartMoneyConceptsOHLC(o.Open, o.High, o.Low, o.Close, o.TimeUnix, p.I(0), p.I(1), p.I(2))
			m.EQHEQL_Enable = b2i(p[3])
			return m
		},
		MaxN: 500,
		Pow:  all(1, 0, "HighBOSShort", "HighCHoCHShort", "HighBOSLong", "HighCHoCHLong", "LowBOSShort", "LowChoCHShort", "LowBOSLong", "LowChoCHLong", "EQH", "EQL")})
	add(&Spec{Name: "StochRsi", Def: P{3, 3, 14, 14}, Rand: func(r *Rng) P { return P{ri(r, 1, 8), ri(r, 1, 8), ri(r, 2, 24), ri(r, 2, 24)} },
		New:    func(k *klines.Item, p P) any { return trend.NewStochRsi(k, p.I(0), p.I(1), p.I(2), p.I(3)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultStochRsi(k) }, Pow: all(0, 0, "K", "D")})
	add(&Spec{Name: "StochasticHeat", Def: P{8, 7, 26, 25, 8}, Rand: func(r *Rng) P {
		return P{ri(r, 1, 10), ri(r, 1, 10), ri(r, 2, 30), wide(r, 1, 27, 28, 100), Pick(r, []float64{2, 4, 8})}
	},
		New: func(k *klines.Item, p P) any {
			return trend.NewStochasticHeat(k, p.I(0), p.I(1), p.I(2), p.I(3), types.MATypes(p.I(4)))
		},
		NewDef: func(k *klines.Item) any { return trend.NewDefaultStochasticHeat(k) }, MaxN: 1500, Pow: all(0, 0, "Fast", "Slow")})
	add(&Spec{Name: "SuperTrend", Def: P{10, 3, 1}, Rand: func(r *Rng) P { return P{ri(r, 1, 20), wide(r, 1, 5, 0, 20), ri(r, 0, 1)} },
		New:    func(k *klines.Item, p P) any { return trend.NewSuperTrend(k, p.I(0), p.I(1), b2i(p[2])) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultSuperTrend(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any {
			return trend.NewSuperTrendOHLC(o, k.HL2(), p.I(0), p.I(1), b2i(p[2]))
		},
		Acc: map[string][]string{"GetValues": {"UpTrend", "DownTrend"}}, Pow: all(1, 0, "UpTrend", "UpTrendBegin", "DownTrend", "DownTrendBegin")})
	add(&Spec{Name: "TraderXO", Def: P{12, 25}, Rand: func(r *Rng) P { return P{ri(r, 1, 15), ri(r, 2, 40)} },
		New:     func(k *klines.Item, p P) any { return trend.NewTraderXO(k, p.I(0), p.I(1)) },
		NewDef:  func(k *klines.Item) any { return trend.NewDefaultTraderXO(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any { return trend.NewTraderXOOHLC(o, p.I(0), p.I(1)) },
		Acc:     map[string][]string{"GetValues": {"Fast", "Slow"}}, Pow: all(1, 0, "Fast", "Slow")})
	add(&Spec{Name: "UTBot", Def: P{2, 1}, Rand: func(r *Rng) P { return P{wide(r, 1, 5, 0, 20), ri(r, 1, 20)} },
		New:     func(k *klines.Item, p P) any { return trend.NewUTBot(k, p.I(0), p.I(1)) },
		NewDef:  func(k *klines.Item) any { return trend.NewDefaultUTBot(k) },
		NewOHLC: func(o *klines.OHLC, k *klines.Item, p P) any { return trend.NewUTBotOHLC(o, p.I(0), p.I(1)) },
		Acc:     map[string][]string{"GetValues": {"Value"}}, Pow: all(1, 0, "Close", "Value")})
	add(&Spec{Name: "Vortex", Def: P{9}, Rand: one(1, 30),
		New:    func(k *klines.Item, p P) any { return trend.NewVortex(k, p.I(0)) },
		NewDef: func(k *klines.Item) any { return trend.NewDefaultVortex(k) }, Pow: all(0, 0, "PlusVi", "MinusVi")})
}

// draw picks parameters: the defaults a third of the time.
// parameters that are not window lengths (multipliers, switches), and the largest window where the default cap does not fit
var notWindow = map[string][]int{"Boll": {1}, "BreakoutProbability": {0, 1}, "LinearRegressionCandles": {2}, "PivotPointSuperTrend": {2},
	"SmartMoneyConcepts": {1, 2, 3}, "StochasticHeat": {2, 3, 4}, "SuperTrend": {1, 2}, "UTBot": {0}}
var windowCap = map[string]int{"PivotPointSuperTrend": 60, "SmartMoneyConcepts": 120}

// drawLong picks windows far longer than the defaults for a series of n candles.
func (s *Spec) drawLong(r *Rng, n int) P {
	p := append(P{}, s.draw(r)...)
	if r.Chance(0.3) {
		return p
	}
	hi := max(42, min(n*2/3, 700))
	if c := windowCap[s.Name]; c > 0 {
		hi = min(hi, c)
	}
	for i := range p {
		skip := false
		for _, k := range notWindow[s.Name] {
			skip = skip || k == i
		}
		if !skip && r.Chance(0.8) {
			p[i] = math.Round(math.Exp(math.Log(20) + r.F()*(math.Log(float64(hi))-math.Log(20))))
		}
	}
	return p
}

// longLen picks the length of a long series.
func longLen(r *Rng, sp *Spec, hi int) int {
	n := Pick(r, []int{r.Range(300, 700), r.Range(700, 1100), r.Range(1000, 2200), r.Range(2000, 4200), 256, 257, 512, 513, 1000, 1024, 1025, 2048, 2049, 4097})
	n = min(n, hi)
	if sp.MaxN > 0 {
		n = min(n, sp.MaxN)
	}
	return n
}

func (s *Spec) draw(r *Rng) P {
	if r.Chance(0.34) {
		return s.Def
	}
	return s.Rand(r)
}
