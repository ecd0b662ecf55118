// Command harness runs the runtime monitors of one property against the code
// in /repo. The parent process starts a worker (the same binary), watches it,
// and turns what it observed into a verdict; the worker drives the code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type PropDef struct {
	ID   string
	Rule string
	Asm  []string
	Race bool // also run under the race detector build
	Run  func(c *Ctx)
}

var props = map[string]*PropDef{}

func reg(p *PropDef) { props[p.ID] = p }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	only := flag.String("case", "", "run only this case")
	worker := flag.String("worker", "", "internal: write the result here")
	root := flag.String("root", "/verif", "verif root")
	mode := flag.String("mode", "plain", "plain or race (which build this is)")
	racebin := flag.String("racebin", "", "binary built with -race")
	flag.Parse()
	p := props[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(3)
	}
	if *worker != "" {
		runWorker(p, *tier, *seed, *only, *worker, *mode)
		return
	}
	os.Exit(parent(p, *tier, *seed, *only, *root, *racebin))
}

// raceMode is true in the worker of the -race build.
var raceMode bool

func runWorker(p *PropDef, tier string, seed uint64, only, out, mode string) {
	raceMode = mode == "race"
	c := &Ctx{Prop: p.ID, Seed: seed, Tier: tier, Only: only,
		NonTriv: map[uint64]struct{}{}, Counts: map[string]int{}, Skips: map[string]int{}, keys: map[string]int{}}
	pf, err := os.Create(out + ".progress")
	if err != nil {
		panic(err)
	}
	last := ""
	c.progress = func(l string) {
		if l != last {
			last = l
			b := []byte(l + strings.Repeat(" ", max(1, 200-len(l))) + "\n")
			pf.WriteAt(b, 0)
		}
	}
	p.Run(c)
	os.WriteFile(out, mustJSON(c.Result()), 0o644)
}

func cpuAndRSS(pid int) (float64, float64, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0, false
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.ParseFloat(f[21], 64)
	return (u + k) / 100, rss * 4096, true
}

// zoneOf picks the local time zone of a run: what an indicator computes is either independent
// of it or stated in local time.
func zoneOf(id string, seed uint64) string {
	n, _ := strconv.Atoi(strings.TrimPrefix(id, "C"))
	return []string{"America/New_York", "Asia/Kolkata", "UTC", "Asia/Shanghai"}[(seed+uint64(n))%4]
}

// run starts one worker and returns its result, or a violation describing how it died.
func run(bin, mode string, p *PropDef, tier string, seed uint64, only string) (Result, []Violation, string) {
	tmp, err := os.MkdirTemp("", "vh")
	if err != nil {
		return Result{}, nil, err.Error()
	}
	defer os.RemoveAll(tmp)
	out := filepath.Join(tmp, "r.json")
	cmd := exec.Command(bin, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-case", only, "-worker", out, "-mode", mode)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(tmp, "race"), "GOTRACEBACK=all", "TZ="+zoneOf(p.ID, seed))
	var so, se bytes.Buffer
	cmd.Stdout = &so // the code under test may print; it is not evidence
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		return Result{}, nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	killed := ""
	prog := func() string {
		b, _ := os.ReadFile(out + ".progress")
		return strings.TrimSpace(strings.SplitN(string(b), "\n", 2)[0])
	}
	// A case normally takes milliseconds. A worker is stopped when one case has
	// burnt 100 s of CPU time, or has used no CPU at all for 60 s (blocked), or
	// holds more than 8 GB. These are budgets of the code under test, not of the machine.
	lastProg, cpuAt, lastCPU := "", 0.0, 0.0
	idle := 0
	budget := 100.0
	if mode == "race" {
		budget = 250
	}
	idleMax := 60
	if os.Getenv("VERIF_FAST") != "" { // development only
		budget, idleMax = 10, 15
	}
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(time.Second):
			cpu, rss, ok := cpuAndRSS(cmd.Process.Pid)
			if !ok {
				continue
			}
			if pr := prog(); pr != lastProg {
				lastProg, cpuAt, idle = pr, cpu, 0
			}
			if cpu-lastCPU < 0.02 {
				idle++
			} else {
				idle = 0
			}
			lastCPU = cpu
			if cpu-cpuAt > budget {
				killed = fmt.Sprintf("one case used more than %.0f s of CPU time without finishing", budget)
			} else if idle > idleMax {
				killed = "the worker blocked: no CPU used for 60 s in the middle of a case"
			} else if rss > 8e9 {
				killed = "one case held more than 8 GB"
			}
			if killed != "" {
				cmd.Process.Signal(os.Interrupt)
				cmd.Process.Kill()
				werr = <-done
				break loop
			}
		}
	}
	var res Result
	var viol []Violation
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, &res)
	}
	pl := prog()
	key, cs := pl, pl
	if i := strings.Index(pl, " "); i > 0 {
		key, cs = pl[:i], pl[i+1:]
	}
	errText := se.String()
	if killed != "" {
		viol = append(viol, Violation{"hang/" + key, cs, killed})
	} else if rerr != nil || werr != nil {
		t := errText
		if i := strings.Index(t, "fatal error:"); i >= 0 {
			t = t[i:]
		} else if i := strings.Index(t, "panic:"); i >= 0 {
			t = t[i:]
		}
		if strings.Contains(t, "stockindicator") || strings.Contains(t, "all goroutines are asleep") || strings.Contains(t, "concurrent map") {
			if len(t) > 4000 {
				t = t[:4000]
			}
			viol = append(viol, Violation{"crash/" + key, cs, fmt.Sprintf("worker died: %v\n%s", werr, t)})
		} else {
			return res, nil, fmt.Sprintf("worker failed: %v %v\n%s", werr, rerr, tail(errText, 3000))
		}
	}
	// race reports
	logs, _ := filepath.Glob(filepath.Join(tmp, "race*"))
	for _, l := range logs {
		lb, _ := os.ReadFile(l)
		reps := strings.Split(string(lb), "WARNING: DATA RACE")
		for _, r := range reps[1:] {
			if !strings.Contains(r, "stockindicator/") {
				return res, nil, "race report inside the harness itself:\n" + tail(r, 3000)
			}
			viol = append(viol, Violation{"race/" + raceKey(r), cs, "DATA RACE" + r})
		}
	}
	return res, viol, ""
}

// raceKey names a race report by the first two frames inside the code under test.
func raceKey(r string) string {
	var fs []string
	for _, l := range strings.Split(r, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "stockindicator/"); i >= 0 && strings.HasSuffix(l, ")") && !strings.HasPrefix(l, "/") {
			fs = append(fs, strings.TrimSuffix(l[i+len("stockindicator/"):], "()"))
			if len(fs) == 2 {
				break
			}
		}
	}
	return strings.Join(fs, "|")
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func parent(p *PropDef, tier string, seed uint64, only, root, racebin string) int {
	t0 := time.Now()
	self, _ := os.Executable()
	type r struct {
		mode string
		res  Result
	}
	var viol []Violation
	var res []r
	x, v, e := run(self, "plain", p, tier, seed, only)
	if e != "" {
		fmt.Println("INCONCLUSIVE:", e)
		return 2
	}
	res = append(res, r{"plain", x})
	viol = append(append(viol, x.Viol...), v...)
	raceRan := false
	if p.Race && racebin != "" {
		x, v, e = run(racebin, "race", p, tier, seed, only)
		if e != "" {
			fmt.Println("INCONCLUSIVE:", e)
			return 2
		}
		raceRan = true
		res = append(res, r{"race", x})
		viol = append(append(viol, x.Viol...), v...)
	}
	known := loadKnown(filepath.Join(root, "known_findings.txt"), p.ID)
	evals, distinct := 0, 0
	counts, skips := map[string]int{}, map[string]int{}
	samples := []map[string]any{}
	for _, y := range res {
		evals += y.res.Evals
		if y.res.Distinct > distinct {
			distinct = y.res.Distinct
		}
		pre := ""
		if y.mode == "race" {
			pre = "race build: "
		}
		for k, n := range y.res.Counts {
			counts[pre+k] += n
		}
		for k, n := range y.res.Skips {
			skips[pre+k] += n
		}
		if y.mode == "plain" {
			samples = append(samples, y.res.Samples...)
		}
	}
	if only == "" && len(viol) == 0 && (evals == 0 || distinct < 2) {
		fmt.Println("INCONCLUSIVE: the monitors observed nothing")
		return 2
	}
	// verdict
	dir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	seen := map[string]bool{}
	var bad []Violation
	knownHit := map[string]bool{}
	for _, v := range viol {
		if k := matchKnown(known, v); k != "" {
			knownHit[k] = true
			continue
		}
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		bad = append(bad, v)
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	for i, v := range bad {
		if i >= 8 {
			fmt.Printf("(and %d more)\n", len(bad)-i)
			break
		}
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, i))
		os.WriteFile(f, mustJSON(map[string]any{"property": p.ID, "seed": seed, "tier": tier, "case": v.Case, "key": v.Key, "detail": v.Detail}), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		d := strings.SplitN(v.Detail, "\n", 2)[0]
		fmt.Printf("  %s [%s] %s\n", v.Key, v.Case, d)
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": samples,
		"observed": counts, "withheld_comparisons": skips, "race_build_ran": raceRan,
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": p.Asm, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	if only == "" {
		os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), mustJSON(ev), 0o644)
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s\n", p.ID, tier, evals, distinct, len(bad), time.Since(t0).Seconds())
	if len(bad) > 0 {
		return 1
	}
	return 0
}

// known_findings.txt lines: "known: property=<id> key=<key> <text>"; "fixed:" lines suppress nothing.
func loadKnown(path, id string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+id+" "))
		}
	}
	return out
}

func matchKnown(known []string, v Violation) string {
	for _, k := range known {
		if strings.HasPrefix(k, "key="+v.Key+" ") {
			return k
		}
	}
	return ""
}
