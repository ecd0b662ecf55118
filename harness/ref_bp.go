package main

import (
	"fmt"
	"math"

	"github.com/idoall/stockindicator/utils"
)

const (
	buySide  = utils.Buy
	sellSide = utils.Sell
	holdSide = utils.Hold
)

// refBreakout: for each of five levels k (k steps of pct% of the close), how often the
// candle after a rising (falling) one exceeded the previous high by k steps, and
// undercut the previous low by k steps, in percent of all rising (falling) ones,
// re-evaluated at each occurrence.
func refBreakout(s *Series, p P) *RefOut {
	n := s.N()
	v := map[string][]float64{"Win": mk(n), "Loss": mk(n)}
	for j := 0; j < 10; j++ {
		for _, f := range []string{"Price", "Per", "Up"} {
			v[fmt.Sprintf("List%d.%s", j, f)] = mk(n)
		}
	}
	var hits [2][5][2]int
	var per [2][5][2]float64
	var tot [2]int
	win, loss := 0, 0
	var k cutter
	for i := 1; i < n; i++ {
		h, l, c := s.H[i], s.L[i], s.C[i]
		ph, pl := s.H[i-1], s.L[i-1]
		step := c * p[0] / 100
		col := -1
		if s.C[i-1] > s.O[i-1] {
			col = 0
		} else if s.C[i-1] < s.O[i-1] {
			col = 1
		}
		if col >= 0 {
			tot[col]++
			for j := 0; j < 5; j++ {
				x := step * float64(j)
				if k.gt(i, h, ph+x, j == 0) {
					hits[col][j][0]++
					per[col][j][0] = 100 * float64(hits[col][j][0]) / float64(tot[col])
				}
				if k.gt(i, pl-x, l, j == 0) {
					hits[col][j][1]++
					per[col][j][1] = 100 * float64(hits[col][j][1]) / float64(tot[col])
				}
			}
			for j := 0; j < p.I(1); j++ {
				if math.Min(per[col][j][0], per[col][j][1]) > 0 {
					v[fmt.Sprintf("List%d.Price", j)][i] = h + step*float64(j)
					v[fmt.Sprintf("List%d.Per", j)][i] = per[col][j][0]
					v[fmt.Sprintf("List%d.Up", j)][i] = 1
					v[fmt.Sprintf("List%d.Price", 5+j)][i] = l - step*float64(j)
					v[fmt.Sprintf("List%d.Per", 5+j)][i] = per[col][j][1]
				}
			}
		}
		q := col
		if q < 0 {
			q = 1
		}
		ok := l <= pl
		if per[q][0][0] >= per[q][0][1] {
			ok = h >= ph
		} else if ph == pl && (h >= ph) != (l <= pl) {
			k.mark(i) // a previous candle without range: "its high" and "its low" are one number
		}
		if ok {
			win++
		} else {
			loss++
		}
		v["Win"][i], v["Loss"][i] = float64(win), float64(loss)
	}
	o := &RefOut{V: v, Floor: map[string]float64{}, Cut: k.at}
	o.floorAll(1e-9 * s.Scale)
	for j := 0; j < 10; j++ {
		o.Floor[fmt.Sprintf("List%d.Per", j)] = 1e-7
		o.Floor[fmt.Sprintf("List%d.Up", j)] = 0
	}
	o.Floor["Win"], o.Floor["Loss"] = 0, 0
	return o
}
