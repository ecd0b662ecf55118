package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

// eventLog records who did what in which order; its hash identifies an interleaving.
type eventLog struct {
	mu sync.Mutex
	ev []byte
}

// stamps is the log of one goroutine. It takes no lock, so that watching the goroutines does not order them (a lock would hide
// races from the detector); the logs are merged by time afterwards.
type stamps []stamp
type stamp struct {
	at  time.Time
	who int
}

func (l *stamps) add(who int) { *l = append(*l, stamp{time.Now(), who}) }

func mergeStamps(ls []stamps) (ev []byte) {
	var all stamps
	for _, l := range ls {
		all = append(all, l...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].at.Before(all[j].at) })
	for _, x := range all {
		ev = append(ev, byte(x.who))
	}
	return ev
}

func (l *eventLog) add(who int) {
	l.mu.Lock()
	l.ev = append(l.ev, byte(who))
	l.mu.Unlock()
}

func (l *eventLog) events() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]byte(nil), l.ev...)
}

func jitter(r *Rng) {
	if r.naps > 0 && r.Chance(0.15) {
		r.naps--
		time.Sleep(time.Duration(Pick(r, []int{1, 3, 8, 25, 60, 120, 250})) * time.Millisecond)
		return
	}
	switch r.Intn(12) {
	case 0:
		time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
}

// ---------------------------------------------------------------- C05

// A job is something a user runs over the shared candles. It returns what it obtained; the
// same call made alone, before or after the concurrent phase, says what that should be.
type concJob struct {
	what string
	run  func() any
	diff func(got, want any) string
}

type indResult struct {
	f    *Frame
	side any
	acc  map[string][][]float64
}

func concJobs(r *Rng, s *Series, n int, mid time.Time) []concJob {
	var jobs []concJob
	k := s.K
	same := func(what string) func(got, want any) string {
		return func(got, want any) string {
			if !reflect.DeepEqual(got, want) {
				return what + " other than obtained alone"
			}
			return ""
		}
	}
	for len(jobs) < n {
		switch r.Intn(8) {
		default: // an indicator of its own over the shared candles
			sp := Pick(r, specs)
			if sp.MaxN > 0 && s.N() > sp.MaxN {
				continue
			}
			p := sp.draw(r)
			jobs = append(jobs, concJob{sp.Name, func() any {
				sd, _ := SideOf(sp.New(k, p))
				return indResult{GetData(sp.New(k, p)), sd, accessors(sp, sp.New(k, p))}
			}, func(g, w any) string {
				got, want := g.(indResult), w.(indResult)
				if got.f.N != want.f.N {
					return fmt.Sprintf("%d records, %d when run alone", got.f.N, want.f.N)
				}
				if d := diffFrame(got.f, want.f, want.f.N, 0, 0); d != "" {
					return d
				}
				if !reflect.DeepEqual(got.side, want.side) {
					return "signals differ from those obtained alone"
				}
				for _, name := range sortedKeys(want.acc) {
					if !sameAcc(got.acc[name], want.acc[name]) {
						return name + " differs from the one obtained alone"
					}
				}
				return ""
			}})
		case 0: // a batch of strategies
			var mkAll []func() utils.IStrategy
			for q := r.Range(2, 5); q > 0; q-- {
				sp := Pick(r, specs)
				p := sp.draw(r)
				if sp.MaxN > 0 && s.N() > sp.MaxN {
					continue
				}
				if _, ok := sp.New(k, p).(utils.IStrategy); ok {
					mkAll = append(mkAll, func() utils.IStrategy { return sp.New(k, p).(utils.IStrategy) })
				}
			}
			jobs = append(jobs, concJob{"RunStrategies", func() any {
				var ss []utils.IStrategy
				for _, f := range mkAll {
					ss = append(ss, f())
				}
				return utils.RunStrategies(ss...)
			}, same("a batch of strategies")})
		case 1: // operations that only read the candles
			from, to := mid.Add(-time.Duration(k.Interval)*9), mid.Add(time.Duration(k.Interval)*9)
			jobs = append(jobs, concJob{"candles", func() any {
				return []any{k.GetOHLC(), k.ToHeikinAshi(), k.HL2(), k.HLC3(), k.OHLC4(), k.RemoveOutsideRangeCopy(from, to)}
			}, same("candle columns")})
		case 2: // series functions over the shared columns
			p := r.Range(2, 20)
			fns := make([]int, 10)
			for q := range fns {
				fns[q] = r.Intn(len(arrFns))
			}
			xs := ta.GenerateNumbers(0, float64(s.N()), 1)
			jobs = append(jobs, concJob{"series functions", func() any {
				all := [][]float64{ta.Sma(p, s.C), ta.Ema(p, s.C), ta.Max(p, s.H), ta.Min(p, s.L), ta.StdDev(s.C, p, 1), ta.Atr(s.H, s.L, s.C, p), ta.Sum(p, s.V), ta.Wma(p, s.C), ta.LinearReg(s.C, p), ta.PivotHigh(s.H, 2, 3)}
				for _, q := range fns {
					if arrFns[q].name != "Nzs" { // replaces in place
						all = append(all, arrFns[q].f(s.O, s.H, s.L, s.C, p)...)
					}
				}
				m, b := utils.MovingLeastSquare(p, xs, s.C)
				return append(all, m, b)
			}, func(g, w any) string {
				if !sameAcc(g.([][]float64), w.([][]float64)) {
					return "a series function differs from its result alone"
				}
				return ""
			}})
		case 3: // conversions to several longer intervals
			x := r.Range(2, 40)
			jobs = append(jobs, concJob{"conversions", func() any {
				var all []any
				for m := x; m < x+4; m++ {
					g, err := k.ConvertToNewInterval(k.Interval * klines.Interval(m))
					all = append(all, g, err == nil)
				}
				h, err := k.ToHeikinAshi().ConvertToNewInterval(k.Interval * klines.Interval(x))
				return append(all, h, err == nil)
			}, same("converted candles")})
		}
	}
	return jobs
}

func concCase(c *Ctx, r *Rng, label string) {
	s := GenSeries(r, Pick(r, kindsAll), r.Range(60, 260))
	mid := time.Unix(s.T[s.N()/2], 0)
	before := cloneItem(s.K, 0, s.N())
	jobs := concJobs(r, s, r.Range(6, 14), mid)
	alone := make([]any, len(jobs))
	runAlone := func() {
		for i, j := range jobs {
			alone[i] = j.run()
		}
	}
	cold := r.Chance(0.5) // nobody has run these jobs before the concurrent phase
	if !cold {
		runAlone()
	}
	G := r.Range(4, 12)
	type result struct {
		job int
		got any
	}
	results := make([][]result, G)
	logs := make([]stamps, G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		gr := NewRng(r.U64(), "g")
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					c.Fail("panic", label, "panic while other goroutines use the same candles: %v", e)
				}
			}()
			<-start
			for q := 0; q < 4; q++ {
				i := gr.Intn(len(jobs))
				jitter(gr)
				logs[g].add(i)
				results[g] = append(results[g], result{i, jobs[i].run()})
				logs[g].add(128 + i)
			}
		}()
	}
	close(start)
	wg.Wait()
	if cold {
		runAlone()
		c.Count("cases without any run before the concurrent ones", 1)
	}
	for g := range results {
		for _, x := range results[g] {
			if d := jobs[x.job].diff(x.got, alone[x.job]); d != "" {
				c.Fail("result/"+jobs[x.job].what, label, "%d goroutines over %d %s candles: %s: %s", G, s.N(), s.Kind, jobs[x.job].what, d)
			}
		}
	}
	for i, x := range s.K.Candles {
		if *x != *before.Candles[i] {
			c.Fail("candles", label, "candle %d changed", i)
			break
		}
	}
	c.Count("concurrent jobs", 4*G)
	c.Count("goroutines", G)
	ev := mergeStamps(logs)
	c.Seen(hash64(ev))
	c.Sample(map[string]any{"goroutines": G, "candles": s.N(), "kind": s.Kind, "jobs": len(jobs), "order": fmt.Sprint(ev[:min(16, len(ev))])})
}

// readersCase: several readers of one indicator that has been calculated.
func readersCase(c *Ctx, r *Rng, label string, sp *Spec) {
	n := r.Range(60, 200)
	if sp.MaxN > 0 {
		n = min(n, sp.MaxN)
	}
	s := GenSeries(r, Pick(r, kindsAll), n)
	p := sp.draw(r)
	want := GetData(sp.New(s.K, p))
	wantSide, _ := SideOf(sp.New(s.K, p))
	wantAcc := accessors(sp, sp.New(s.K, p))
	o := sp.New(s.K, p)
	Calc(o)
	var wg sync.WaitGroup
	const G = 6
	logs := make([]stamps, G)
	start := make(chan struct{})
	first := r.Intn(6) // what all begin with, if less than 3
	for g := 0; g < G; g++ {
		gr := NewRng(r.U64(), "g")
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for q := 0; q < 3; q++ {
				w := gr.Intn(3)
				if q == 0 && first < 3 {
					w = first
				} else {
					jitter(gr)
				}
				logs[g].add(g*4 + w)
				switch w {
				case 0:
					if d := diffFrame(GetData(o), want, want.N, 0, 0); d != "" {
						c.Fail("reader/"+sp.Name, label, "%s read by several goroutines: %s", sp.Name, d)
					}
				case 1:
					if sd, ok := SideOf(o); ok && !reflect.DeepEqual(sd, wantSide) {
						c.Fail("reader/"+sp.Name, label, "%s read by several goroutines: other signals", sp.Name)
					}
				case 2:
					acc := accessors(sp, o)
					for _, name := range sortedKeys(wantAcc) {
						if !sameAcc(acc[name], wantAcc[name]) {
							c.Fail("reader/"+sp.Name, label, "%s read by several goroutines: %s differs", sp.Name, name)
						}
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Count("reads of a shared calculated indicator", 3*G)
	c.Seen(hash64(sp.Name, mergeStamps(logs)))
}

// ---------------------------------------------------------------- C27

// feed sends list into a channel of the given capacity, with pauses, and closes it.
func feed[T any](r *Rng, list []T, capacity int, log *eventLog, who int) <-chan T {
	ch := make(chan T, capacity)
	pr := NewRng(r.U64(), "p")
	pr.naps = r.naps
	go func() {
		defer close(ch)
		for _, v := range list {
			jitter(pr)
			ch <- v
			log.add(who)
		}
	}()
	return ch
}

// manyNow is a small number, now and then a large one.
func manyNow(r *Rng, small, large int) int {
	if r.Chance(0.05) {
		return r.Range(small, large)
	}
	return r.Range(0, small)
}

// take reads a channel to its end, with pauses.
func take[T any](r *Rng, ch <-chan T, log *eventLog, who int) []T {
	var out []T
	for v := range ch {
		out = append(out, v)
		log.add(who)
		jitter(r)
	}
	return out
}

func eqList[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// stage is one link of a pipeline: how to build it, and what it does to a list.
type stage struct {
	name string
	on   func(r *Rng, in <-chan int, log *eventLog) <-chan int
	list func(in []int) []int
}

func randStage(r *Rng) stage {
	switch r.Intn(8) {
	case 0:
		a, b := r.Range(-3, 3), r.Range(-9, 9)
		f := func(x int) int { return x*a + b }
		return stage{fmt.Sprintf("Apply(x*%d+%d)", a, b), func(_ *Rng, in <-chan int, _ *eventLog) <-chan int { return helpertools.Apply(in, f) },
			func(in []int) []int {
				var o []int
				for _, v := range in {
					o = append(o, f(v))
				}
				return o
			}}
	case 1:
		k, fill := manyNow(r, 6, 1200), r.Range(-5, 5)
		return stage{fmt.Sprintf("Shift(%d,%d)", k, fill), func(_ *Rng, in <-chan int, _ *eventLog) <-chan int { return helpertools.Shift(in, k, fill) },
			func(in []int) []int {
				var o []int
				for j := 0; j < k; j++ {
					o = append(o, fill)
				}
				return append(o, in...)
			}}
	case 2:
		k := manyNow(r, 6, 400)
		return stage{fmt.Sprintf("Skip(%d)", k), func(_ *Rng, in <-chan int, _ *eventLog) <-chan int { return helpertools.Skip(in, k) },
			func(in []int) []int { return in[min(k, len(in)):] }}
	case 3:
		capOut := r.Intn(5)
		return stage{"Pipe", func(_ *Rng, in <-chan int, _ *eventLog) <-chan int {
			t := make(chan int, capOut)
			go helpertools.Pipe(in, t)
			return t
		}, func(in []int) []int { return in }}
	case 4:
		return stage{"Slice2Chan(Chan2Slice)", func(_ *Rng, in <-chan int, _ *eventLog) <-chan int {
			t := make(chan int)
			go func() { // collecting waits for the end of the stream
				helpertools.Pipe(helpertools.Slice2Chan(helpertools.Chan2Slice(in)), t)
			}()
			return t
		}, func(in []int) []int { return in }}
	case 5: // a stream combined with a shifted copy of itself
		k := r.Range(1, 5)
		return stage{fmt.Sprintf("Duplicate+Shift(%d)+Operate", k), func(_ *Rng, in <-chan int, _ *eventLog) <-chan int {
			d := helpertools.Duplicate(in, 2)
			return helpertools.Operate(d[0], helpertools.Shift(d[1], k, 100), func(a, b int) int { return a*7 - b })
		}, func(in []int) []int {
			var o []int
			for i, v := range in {
				b := 100
				if i >= k {
					b = in[i-k]
				}
				o = append(o, v*7-b)
			}
			return o
		}}
	case 6: // copies of which one is merely drained
		cnt := r.Range(1, 5)
		keep := r.Intn(cnt)
		return stage{fmt.Sprintf("Duplicate(%d)+Drain", cnt), func(_ *Rng, in <-chan int, _ *eventLog) <-chan int {
			d := helpertools.Duplicate(in, cnt)
			for j := range d {
				if j != keep {
					go helpertools.Drain(d[j])
				}
			}
			return d[keep]
		}, func(in []int) []int { return in }}
	default:
		p := r.Range(1, 6)
		return stage{fmt.Sprintf("SmaT(%d)", p), func(_ *Rng, in <-chan int, _ *eventLog) <-chan int { return ta.SmaT(p, in) },
			func(in []int) []int {
				var o []int
				for i := range in {
					sum := 0
					for j := max(0, i-p+1); j <= i; j++ {
						sum += in[j]
					}
					o = append(o, sum/p)
				}
				return o
			}}
	}
}

// within runs f and waits for it and for every goroutine started since to end.
func within(c *Ctx, key, label, what string, f func()) bool {
	base := runtime.NumGoroutine()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	limit := 30 * time.Second
	select {
	case e := <-done:
		if e != nil {
			c.Fail(key+"/panic", label, "%s: panic: %v", what, e)
			return true
		}
	case <-time.After(limit):
		c.Fail(key+"/stuck", label, "%s: no end after %v", what, limit)
		return false
	}
	for t0 := time.Now(); runtime.NumGoroutine() > base; {
		if time.Since(t0) > 10*time.Second {
			c.Fail(key+"/goroutines", label, "%s: %d goroutines left behind", what, runtime.NumGoroutine()-base)
			return false
		}
		time.Sleep(20 * time.Microsecond)
	}
	c.Count("pipelines watched to the end of all their goroutines", 1)
	return true
}

func ints(r *Rng, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = r.Range(-1000, 1000)
	}
	return o
}

// watcher runs one pipeline and says whether later ones can be watched.
type watcher func(c *Ctx, key, label, what string, f func()) bool

// slowBatch runs many pipelines at once, whose producers and consumers stop for up to a
// quarter of a second now and then.
func slowBatch(c *Ctx, label string, n int) bool {
	return within(c, "slow", label, fmt.Sprintf("%d pipelines with long pauses", n), func() {
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := NewRng(c.Seed, fmt.Sprintf("%s/%d", label, j))
				r.naps = r.Range(1, 4)
				chanCase(c, r, fmt.Sprintf("%s/%d", label, j), func(c *Ctx, key, label, what string, f func()) bool {
					defer func() {
						if e := recover(); e != nil {
							c.Fail(key+"/panic", label, "%s: panic: %v", what, e)
						}
					}()
					f()
					return true
				})
				c.Count("pipelines with long pauses", 1)
			}()
		}
		wg.Wait()
	})
}

func chanCase(c *Ctx, r *Rng, label string, within watcher) bool {
	var log eventLog
	n := r.Intn(40)
	if r.Chance(0.1) {
		n = sometimesLong(r, r.Range(100, 400), 0.15, 9000)
	}
	in := ints(r, n)
	capIn := r.Intn(6)
	ok := true
	switch r.Intn(5) {
	case 0, 1: // a chain of stages
		var st []stage
		desc, want := fmt.Sprintf("%d values, capacity %d", n, capIn), in
		for q := r.Range(1, 5); q > 0; q-- {
			x := randStage(r)
			st = append(st, x)
			desc += " | " + x.name
			want = x.list(want)
		}
		ok = within(c, "chain", label, desc, func() {
			ch := feed(r, in, capIn, &log, 1)
			for _, x := range st {
				ch = x.on(r, ch, &log)
			}
			if got := take(r, ch, &log, 2); !eqList(got, want) {
				c.Fail("chain/values", label, "%s: %v, expected %v", desc, got, want)
			}
		})
		c.Sample(map[string]any{"pipeline": desc})
	case 2: // copies read by consumers of different speed
		cnt := manyNow(r, 6, 80)
		desc := fmt.Sprintf("Duplicate of %d values, capacity %d, to %d consumers", n, capIn, cnt)
		ok = within(c, "Duplicate", label, desc, func() {
			outs := helpertools.Duplicate(feed(r, in, capIn, &log, 99), cnt)
			if len(outs) != cnt {
				c.Fail("Duplicate/count", label, "%s: %d outputs", desc, len(outs))
			}
			var wg sync.WaitGroup
			for j, o := range outs {
				cr := NewRng(r.U64(), "c")
				cr.naps = r.naps
				wg.Add(1)
				go func() {
					defer wg.Done()
					if got := take(cr, o, &log, j); !eqList(got, in) {
						c.Fail("Duplicate/values", label, "%s: consumer %d got %v, expected %v", desc, j, got, in)
					}
				}()
			}
			wg.Wait()
		})
	case 3: // two streams of different length and speed
		m := r.Intn(40)
		if r.Chance(0.3) {
			m = n
		}
		in2 := make([]float64, m)
		for i := range in2 {
			in2[i] = r.Norm()
		}
		var fromA, fromB eventLog
		desc := fmt.Sprintf("Operate over %d and %d values", n, m)
		ok = within(c, "Operate", label, desc, func() {
			type pair struct {
				a int
				b float64
			}
			calls := 0
			out := helpertools.Operate(feed(r, in, capIn, &fromA, 1), feed(r, in2, r.Intn(4), &fromB, 2), func(a int, b float64) pair {
				calls++ // one goroutine at a time: the race detector watches this
				return pair{a, b}
			})
			got := take(r, out, &log, 3)
			k := min(n, m)
			if len(got) != k || calls != k {
				c.Fail("Operate/count", label, "%s: %d results from %d calls", desc, len(got), calls)
				return
			}
			for i := range got {
				if got[i] != (pair{in[i], in2[i]}) {
					c.Fail("Operate/values", label, "%s: result %d is %v, expected %v and %v", desc, i, got[i], in[i], in2[i])
					return
				}
			}
		})
		// every producer was able to deliver all of its values
		if ok && (len(fromA.events()) != n || len(fromB.events()) != m) {
			c.Fail("Operate/drained", label, "%s: producers delivered %d and %d values", desc, len(fromA.events()), len(fromB.events()))
		}
		log.add(n)
		log.add(m)
	case 4: // the rest, one at a time
		switch r.Intn(4) {
		case 0: // comparing streams
			pairs := manyNow(r, 4, 80)
			var want, shape string
			ok = within(c, "CheckEquals", label, "CheckEquals", func() {
				var chs []<-chan int
				same := true
				for q := 0; q < pairs; q++ {
					a := ints(r, r.Intn(12))
					b := append([]int(nil), a...)
					switch r.Intn(max(8, 4*pairs)) {
					case 0:
						if len(b) > 0 {
							b[r.Intn(len(b))]++
							same = false
						}
					case 1:
						b = append(b, r.Intn(3)) // zero is a value like any other
						same = false
					case 2:
						if len(b) > 0 {
							a[len(a)-1] = r.Intn(3)
							b = b[:len(b)-1]
							same = false
						}
					}
					shape += fmt.Sprintf("%d/%d ", len(a), len(b))
					for _, l := range [][]int{a, b} {
						ch := make(chan int, len(l)) // complete beforehand: a mismatch leaves nobody waiting
						for _, v := range l {
							ch <- v
						}
						close(ch)
						chs = append(chs, ch)
					}
				}
				err := helpertools.CheckEquals(chs...)
				if (err == nil) != same {
					c.Fail("CheckEquals", label, "%d pairs of lengths %s equal: %v, error %v %s", pairs, shape, same, err, want)
				}
				odd := make(chan int)
				close(odd)
				if err := helpertools.CheckEquals(append(chs, odd)...); err == nil {
					c.Fail("CheckEquals/odd", label, "no error for an odd number of streams")
				}
			})
		case 1: // a consumer may fall behind by the capacity of the input
			k := r.Range(1, 12)
			list := ints(r, r.Range(0, k))
			cnt := r.Range(2, 4)
			ok = within(c, "Duplicate", label, fmt.Sprintf("Duplicate of a stream with capacity %d, the %d outputs read one after another", k, cnt), func() {
				src := make(chan int, k)
				for _, v := range list {
					src <- v
				}
				close(src)
				for j, o := range helpertools.Duplicate(src, cnt) {
					if got := helpertools.Chan2Slice(o); !eqList(got, list) {
						c.Fail("Duplicate/values", label, "output %d is %v, expected %v", j, got, list)
					}
				}
			})
		case 2: // the average of a stream of floats
			p := r.Range(1, 12)
			list := make([]float64, n)
			for i := range list {
				list[i] = float64(r.Range(1, 4096)) / 64
			}
			ok = within(c, "SmaT", label, fmt.Sprintf("SmaT(%d) of %d values", p, n), func() {
				got := take(r, ta.SmaT(p, feed(r, list, capIn, &log, 1)), &log, 2)
				if len(got) != n {
					c.Fail("SmaT/count", label, "%d averages of %d values", len(got), n)
					return
				}
				for i := range got {
					sum := 0.0
					for j := max(0, i-p+1); j <= i; j++ {
						sum += list[j]
					}
					if !near(got[i], sum/float64(p), 1e-9, 1) {
						c.Fail("SmaT/values", label, "period %d: average %d is %v, expected %v", p, i, got[i], sum/float64(p))
						return
					}
				}
			})
		case 3: // rounding
			d := r.Range(0, 6)
			list := make([]float64, n)
			for i := range list {
				list[i] = r.Norm() * 1000
			}
			ok = within(c, "RoundDigits", label, fmt.Sprintf("RoundDigits of %d values to %d digits", n, d), func() {
				got := take(r, helpertools.RoundDigits(feed(r, list, capIn, &log, 1), d), &log, 2)
				if len(got) != n {
					c.Fail("RoundDigits/count", label, "%d values of %d", len(got), n)
					return
				}
				unit := 1.0
				for j := 0; j < d; j++ {
					unit /= 10
				}
				for i := range got {
					k := got[i] / unit
					diff := got[i] - list[i]
					if diff < 0 {
						diff = -diff
					}
					if diff > unit/2*(1+1e-6) || !near(k, float64(int64(k+signHalf(k))), 1e-7, 1) || got[i] != helpertools.RoundDigit(list[i], d) {
						c.Fail("RoundDigits/values", label, "%v to %d digits is %v", list[i], d, got[i])
						return
					}
				}
				if g := helpertools.RoundDigit(r.Range(-500, 500)*2, d); g%2 != 0 {
					c.Fail("RoundDigit/int", label, "a whole number changed: %d", g)
				}
			})
		}
	}
	ev := log.events()
	c.Count("channel events recorded", len(ev))
	if len(ev) > 4 {
		c.Seen(hash64(ev))
	}
	return ok
}

func signHalf(x float64) float64 {
	if x < 0 {
		return -0.5
	}
	return 0.5
}

func init() {
	reg(&PropDef{ID: "C05", Race: true,
		Rule: "One case = 4 to 12 goroutines, each running indicators of its own, strategy batches, series functions and candle conversions over one shared candle list, against the results obtained alone; or several readers of one calculated indicator. Distinct by the recorded order of job starts and ends. Runs in the plain and in the race-detector build.",
		Asm:  []string{"the schedules are those the Go runtime and the injected pauses produced, not all schedules"},
		Run: func(c *Ctx) {
			q, t := 400, 3000
			if raceMode {
				q, t = 200, 1200
			}
			for j := 0; j < c.N(q, t); j++ {
				label := fmt.Sprintf("C05/shared/%d", j)
				if c.Only == "" || c.Only == label {
					c.Case("shared", label, func() { concCase(c, NewRng(c.Seed, label), label) })
				}
			}
			for _, sp := range specs {
				for j := 0; j < c.N(4, 24); j++ {
					label := fmt.Sprintf("C05/readers/%s/%d", sp.Name, j)
					if c.Only == "" || c.Only == label {
						c.Case("readers/"+sp.Name, label, func() { readersCase(c, NewRng(c.Seed, label), label, sp) })
					}
				}
			}
		}})
	reg(&PropDef{ID: "C27", Race: true,
		Rule: "One case = one pipeline of stream helpers with random capacities, lengths, pauses and consumers, watched until its last goroutine has ended. Non-trivial: more than four recorded channel events; distinct by the recorded event order.",
		Asm:  []string{"consumers read every stream to its end, as the helpers require"},
		Run: func(c *Ctx) {
			q, t := 3000, 60000
			if raceMode {
				q, t = 1200, 15000
			}
			for j := 0; j < c.N(q, t); j++ {
				label := fmt.Sprintf("C27/%d", j)
				if c.Only == "" || c.Only == label {
					ok := true
					c.Case("streams", label, func() { ok = chanCase(c, NewRng(c.Seed, label), label, within) })
					if !ok {
						return // goroutines are stuck: later leak counts would be wrong
					}
				}
			}
			for j := 0; j < c.N(2, 12); j++ {
				label := fmt.Sprintf("C27/slow/%d", j)
				c.Case("streams", label, func() { slowBatch(c, label, 500) })
			}
		}})
}
