package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/idoall/stockindicator/container"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
)

func init() {
	reg(&PropDef{ID: "C16", Rule: "One case = one random history of insert, bulk insert, remove (present and absent values), minimum and maximum on one tree, compared after every call with a sorted multiset; at the end the tree is drained in a random order. Non-trivial: 10 or more operations.",
		Run: func(c *Ctx) {
			for j := 0; j < c.N(1200, 20000); j++ {
				label := fmt.Sprintf("C16/hist/%d", j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				c.Case("bst", label, func() { bstHistory(c, r, label) })
			}
		}})

	reg(&PropDef{ID: "C17", Rule: "One case = one random history of enqueue, dequeue and emptiness tests on one or several queues, compared with slices. Non-trivial: 10 or more operations.",
		Run: func(c *Ctx) {
			for j := 0; j < c.N(1500, 20000); j++ {
				label := fmt.Sprintf("C17/hist/%d", j)
				if c.Only != "" && c.Only != label {
					continue
				}
				r := NewRng(c.Seed, label)
				c.Case("queue", label, func() { queueHistory(c, r, label) })
			}
		}})
}

// word is an ordered type of its own, as the tree's documentation allows.
type word string

func (w word) Compare(o container.Comparable) int {
	return strings.Compare(string(w), string(o.(word)))
}

func bstHistory(c *Ctx, r *Rng, label string) {
	t := bst.New()
	typ := r.Intn(6)
	dom := Pick(r, []int{2, 5, 20, 1000, 1000000})
	// values arriving in order make the deepest trees
	order, given := r.Intn(10), 0
	deep := order < 3 && r.Chance(0.003)
	if deep {
		dom = 10000
	}
	// whole numbers beyond what a float64 tells apart
	far := Pick(r, []int64{0, 0, 1 << 60, -1 << 60, math.MaxInt64 - int64(dom) - 1, math.MinInt64 + int64(dom) + 1})
	val := func() float64 {
		x := float64(r.Range(-dom, dom))
		if order < 3 && (deep || r.Chance(0.9)) {
			y := min(given, dom)
			given++
			switch order {
			case 0:
				x = float64(y)
			case 1:
				x = -float64(y)
			case 2: // from the outside in
				x = float64(dom-y/2) * float64(1-2*(y%2))
			}
		}
		if typ == 0 {
			x /= 8
		}
		return x
	}
	box := func(x float64) any {
		switch typ {
		case 1:
			return far + int64(x)
		case 2:
			return word(fmt.Sprintf("%08d", int(x)+dom)) // a type with its own order
		case 3:
			return float64(int64(x)) * 1e300 // extreme magnitudes
		case 4:
			return 1<<20 + float64(int64(x))/(1<<30) // nearly equal
		case 5:
			return float64(int64(x)) * math.SmallestNonzeroFloat64
		}
		return x
	}
	var m []float64 // sorted
	hist := ""
	ins := func(x float64) {
		i := sort.SearchFloat64s(m, x)
		m = append(m, 0)
		copy(m[i+1:], m[i:])
		m[i] = x
	}
	check := func() bool {
		if len(m) == 0 {
			if t.Min() != nil || t.Max() != nil {
				c.Fail("bst/empty", label, "after [%s]: minimum %v, maximum %v of an empty tree", hist, t.Min(), t.Max())
				return false
			}
			return true
		}
		if t.Min() != box(m[0]) {
			c.Fail("bst/min", label, "after [%s]: minimum %v, expected %v", hist, t.Min(), m[0])
			return false
		}
		if t.Max() != box(m[len(m)-1]) {
			c.Fail("bst/max", label, "after [%s]: maximum %v, expected %v", hist, t.Max(), m[len(m)-1])
			return false
		}
		return true
	}
	remove := func(x float64) bool {
		i := sort.SearchFloat64s(m, x)
		has := i < len(m) && m[i] == x
		if got := t.Remove(box(x)); got != has {
			c.Fail("bst/remove", label, "after [%s]: Remove(%v) returned %v, present %v", hist, x, got, has)
			return false
		}
		if has {
			m = append(m[:i], m[i+1:]...)
		}
		return true
	}
	ops := sometimesLong(r, r.Range(1, 120), 0.01, 6000)
	grow := 0.35 + 0.3*r.F()
	if deep {
		ops, grow = r.Range(4000, 9000), 0.98
		c.Count("trees thousands of levels deep", 1)
	}
	for k := 0; k < ops; k++ {
		if len(hist) > 600 {
			hist = "..." + hist[len(hist)-500:]
		}
		switch {
		case typ == 0 && r.Chance(0.05):
			w := mk(r.Intn(6))
			for i := range w {
				w[i] = val()
				ins(w[i])
			}
			hist += fmt.Sprintf("Inserts%v ", w)
			if t.Inserts(w) != t {
				c.Fail("bst/inserts", label, "Inserts returned another tree")
				return
			}
		case r.Chance(grow) || len(m) == 0 && r.Chance(0.8):
			x := val()
			hist += fmt.Sprintf("+%v ", x)
			t.Insert(box(x))
			ins(x)
		default:
			x := val()
			if len(m) > 0 && r.Chance(0.85) {
				x = m[r.Intn(len(m))]
				if r.Chance(0.2) {
					x = Pick(r, []float64{m[0], m[len(m)-1]})
				}
			}
			hist += fmt.Sprintf("-%v ", x)
			if !remove(x) {
				return
			}
		}
		if !check() {
			return
		}
		c.Count("tree operations observed", 1)
	}
	for len(m) > 0 {
		x := m[r.Intn(len(m))]
		hist += fmt.Sprintf("-%v ", x)
		if len(hist) > 600 {
			hist = "..." + hist[len(hist)-500:]
		}
		if !remove(x) || !check() {
			return
		}
		c.Count("tree operations observed", 1)
	}
	if ops >= 10 {
		c.Seen(hash64(label, hist))
	}
}

func queueHistory(c *Ctx, r *Rng, label string) {
	nq := r.Range(1, 3)
	qs := make([]*queue.Queue, nq)
	ms := make([][]any, nq)
	for i := range qs {
		qs[i] = queue.New()
	}
	next := 0
	hist := ""
	grow := 0.3 + 0.4*r.F()
	ops := sometimesLong(r, r.Range(1, 150), 0.01, 20000)
	for k := 0; k < ops; k++ {
		if len(hist) > 600 {
			hist = "..." + hist[len(hist)-500:]
		}
		i := r.Intn(nq)
		q := qs[i]
		if q.Empty() != (len(ms[i]) == 0) {
			c.Fail("queue/empty", label, "after [%s]: empty %v with %d elements", hist, q.Empty(), len(ms[i]))
			return
		}
		if r.Chance(grow) {
			var x any = next
			switch r.Intn(6) {
			case 0:
				x = nil
			case 1:
				x = fmt.Sprint("s", next)
			case 2:
				x = 0
			}
			next++
			q.Enqueue(x)
			ms[i] = append(ms[i], x)
			hist += fmt.Sprintf("%d<%v ", i, x)
		} else if len(ms[i]) > 0 {
			x := q.Dequeue()
			hist += fmt.Sprintf("%d> ", i)
			if x != ms[i][0] {
				c.Fail("queue/order", label, "after [%s]: dequeued %v, expected %v", hist, x, ms[i][0])
				return
			}
			ms[i] = ms[i][1:]
		} else {
			// an empty queue has nothing to hand out: it must refuse, not invent a value
			refused := func() (ok bool) {
				defer func() { ok = recover() != nil }()
				q.Dequeue()
				return
			}()
			hist += fmt.Sprintf("%d! ", i)
			if !refused {
				c.Fail("queue/underflow", label, "after [%s]: an empty queue handed out a value", hist)
				return
			}
		}
		if len(hist) > 600 {
			hist = "..." + hist[len(hist)-500:]
		}
		c.Count("queue operations observed", 1)
	}
	for i, q := range qs {
		for _, w := range ms[i] {
			if x := q.Dequeue(); x != w {
				c.Fail("queue/order", label, "draining after [%s]: %v, expected %v", hist, x, w)
				return
			}
		}
		if !q.Empty() {
			c.Fail("queue/empty", label, "drained queue is not empty")
		}
	}
	if ops >= 10 {
		c.Seen(hash64(label, hist))
	}
}
