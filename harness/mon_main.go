package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// C35: the demonstration program, built from the repository and run on data files
// in a scratch directory.

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func demoCase(c *Ctx, r *Rng, label, bin, dir string) {
	s := GenSeries(r, Pick(r, kindsAll), Pick(r, []int{0, 1, 2, r.Range(3, 40), r.Range(40, 400), r.Range(400, 1500)}))
	s.K.Interval = klines.ThirtyMin
	js, _ := json.Marshal(s.K.Candles)
	os.MkdirAll(filepath.Join(dir, "data"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "data", "test.json"), js, 0o600); err != nil {
		panic(err)
	}
	cmd := exec.Command(bin)
	cmd.Dir = dir
	zone := time.Local
	if tz := Pick(r, []string{"", "", "UTC", "Asia/Shanghai", "America/New_York", "Asia/Kolkata"}); tz != "" {
		if l, err := time.LoadLocation(tz); err == nil { // times are shown in local time
			cmd.Env = append(os.Environ(), "TZ="+tz)
			zone = l
			c.Count("runs in time zone "+tz, 1)
		}
	}
	outb, err := cmd.CombinedOutput()
	c.Evals++
	if err != nil {
		c.Fail("demo/exit", label, "on %d %s candles: %v\n%s", s.N(), s.Kind, err, tail(string(outb), 600))
		return
	}
	lines := strings.Split(strings.TrimRight(string(outb), "\n"), "\n")
	if len(lines) == 1 && lines[0] == "" {
		lines = nil
	}
	if len(lines) != s.N() {
		c.Fail("demo/lines", label, "%d lines for %d candles", len(lines), s.N())
		return
	}
	k := s.K
	var want []utils.SideData
	for _, x := range []utils.IStrategy{trend.NewDefaultMacd(k), trend.NewDefaultKdj(k), oscillator.NewAbsolutePriceOscillator(k), trend.NewDefaultCci(k), trend.NewDefaultRsi(k),
		oscillator.NewAwesomeOscillator(k), oscillator.NewDefaultChaikinOscillator(k), oscillator.NewDefaultIchimokuCloud(k), oscillator.NewDefaultPercentagePriceOscillator(k),
		oscillator.NewDefaultStochasticOscillator(k), oscillator.NewDefaultWilliamsR(k)} {
		want = append(want, x.AnalysisSide())
	}
	word := map[utils.Side]string{utils.Buy: "BUY", utils.Sell: "SELL", utils.Hold: "HOLD"}
	colour := map[utils.Side]string{utils.Buy: "buy", utils.Sell: "sell"}
	for i, raw := range lines {
		// the decisions, still with their colours: the last len(want) tab-separated words
		rf := strings.Fields(raw)
		if len(rf) < len(want) {
			c.Fail("demo/strategies", label, "line %d is %q", i, raw)
			return
		}
		rawFields := append([]string{""}, rf[len(rf)-len(want):]...)
		f := strings.Fields(strings.ReplaceAll(ansi.ReplaceAllString(raw, ""), "\t", " \t "))
		line := strings.Join(f, " ")
		head := fmt.Sprintf("[%d]Time:%s Close:%.2f", i+1, time.Unix(s.T[i], 0).In(zone).Format("2006-01-02 15:04:05"), s.C[i])
		if !strings.HasPrefix(line, head) {
			c.Fail("demo/candle", label, "line %d is %q, expected it to start with %q", i, line, head)
			return
		}
		rest := strings.Fields(strings.TrimPrefix(line, head))
		if len(rest) != len(want) {
			c.Fail("demo/strategies", label, "line %d shows %d decisions of %d strategies", i, len(rest), len(want))
			return
		}
		for j, w := range want {
			if exp := w.Name + ":" + word[w.Data[i]]; rest[j] != exp {
				c.Fail("demo/decision", label, "candle %d: decision %d is %q, expected %q", i, j, rest[j], exp)
				return
			}
			// the highlight is an escape sequence directly around the word
			m := ansi.FindStringIndex(rawFields[j+1])
			if w.Data[i] == utils.Hold {
				if m != nil {
					c.Fail("demo/colour", label, "candle %d: a hold is highlighted", i)
					return
				}
				continue
			}
			if m == nil || rawFields[j+1][m[1]:m[1]+len(word[w.Data[i]])] != word[w.Data[i]] || !strings.HasSuffix(rawFields[j+1], "\x1b[0m") {
				c.Fail("demo/colour", label, "candle %d: a %v is not highlighted: %q", i, w.Data[i], rawFields[j+1])
				return
			}
			colour[w.Data[i]] = rawFields[j+1][m[0]:m[1]]
			if colour[utils.Buy] == colour[utils.Sell] {
				c.Fail("demo/colour", label, "buys and sells have one colour")
				return
			}
		}
	}
	c.Count("printed decisions compared", len(lines)*len(want))
	if s.N() > 2 {
		c.Seen(hash64(label, s.C))
	}
	if len(lines) > 0 {
		c.Sample(map[string]any{"candles": s.N(), "kind": s.Kind, "first_line": ansi.ReplaceAllString(lines[0], "")})
	}
}

func init() {
	reg(&PropDef{ID: "C35",
		Rule: "One case = one data file in a scratch directory and one run of the program built from the repository. Non-trivial: more than two candles; distinct by data.",
		Run: func(c *Ctx) {
			dir, err := os.MkdirTemp("", "vhdemo")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			bin := filepath.Join(dir, "demo")
			b := exec.Command("go", "build", "-o", bin, ".")
			b.Dir = "/repo"
			if d := os.Getenv("VERIF_REPO"); d != "" {
				b.Dir = d
			}
			b.Env = append(os.Environ(), "GOFLAGS=-buildvcs=false")
			if o, err := b.CombinedOutput(); err != nil {
				panic(fmt.Sprintf("building the program failed: %v\n%s", err, o))
			}
			for j := 0; j < c.N(150, 2000); j++ {
				label := fmt.Sprintf("C35/%d", j)
				if c.Only == "" || c.Only == label {
					c.Case("demo", label, func() { demoCase(c, NewRng(c.Seed, label), label, bin, dir) })
				}
			}
		}})
}
