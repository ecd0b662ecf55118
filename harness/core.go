package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Violation is one refutation of a property, with what is needed to replay it.
type Violation struct {
	Key    string `json:"key"`  // stable identification of what fails (known-findings match on it)
	Case   string `json:"case"` // case label: together with the seed it determines the input
	Detail string `json:"detail"`
}

// Ctx is the state of one check run (inside the worker process).
type Ctx struct {
	Prop     string
	Seed     uint64
	Tier     string
	Only     string // replay: run only cases with this label
	mu       sync.Mutex
	Evals    int
	NonTriv  map[uint64]struct{}
	Samples  []map[string]any
	Counts   map[string]int // what the monitors observed
	Skips    map[string]int // comparisons withheld, by reason
	Viol     []Violation
	keys     map[string]int
	progress func(label string)
	kept     []keptSlice
}

// keptSlice is a result already judged; it must still hold the same values when its case ends.
type keptSlice struct {
	key string
	v   []float64
	h   uint64
}

func hashSlice(v []float64) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range v {
		h = (h ^ math.Float64bits(x)) * 1099511628211
	}
	return h
}

// Keep remembers a returned slice until the end of the case.
func (c *Ctx) Keep(key string, v []float64) {
	c.mu.Lock()
	if len(c.kept) < 400 {
		c.kept = append(c.kept, keptSlice{key, v, hashSlice(v)})
	}
	c.mu.Unlock()
}

func (c *Ctx) checkKept(label string) {
	for _, k := range c.kept {
		if hashSlice(k.v) != k.h {
			c.Fail(k.key+"/overwritten", label, "a slice returned by %s was changed by a later call", k.key)
		}
	}
	if len(c.kept) > 0 {
		c.Count("results still unchanged at the end of their case", len(c.kept))
	}
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a count by tier.
func (c *Ctx) N(quick, thorough int) int {
	m, ok := effort[c.Prop]
	if !ok {
		m = [2]int{16, 12}
	}
	if os.Getenv("VERIF_FAST") != "" { // development only: a fraction of the quick cases
		return quick
	}
	if c.Thorough() {
		return thorough * m[1]
	}
	return quick * m[0]
}

// effort multiplies the case counts so that a quick run takes a few seconds and a
// thorough one a few minutes.
var effort = map[string][2]int{
	"C01": {5, 6}, "C02": {5, 6}, "C03": {5, 6}, "C04": {8, 8}, "C05": {1, 2}, "C06": {8, 12}, "C07": {6, 8}, "C08": {7, 8},
	"C09": {14, 10}, "C10": {20, 12}, "C11": {4, 2}, "C12": {4, 6}, "C13": {4, 8}, "C14": {35, 12}, "C15": {50, 12}, "C16": {30, 12},
	"C17": {80, 12}, "C18": {60, 12}, "C19": {45, 12}, "C20": {32, 12}, "C21": {45, 12}, "C22": {45, 12}, "C24": {12, 10}, "C25": {35, 12},
	"C26": {5, 4}, "C27": {1, 1}, "C28": {80, 12}, "C29": {60, 12}, "C30": {80, 12}, "C31": {30, 12}, "C32": {100, 12}, "C33": {80, 12},
	"C34": {12, 12}, "C35": {1, 1},
}

func (c *Ctx) Count(what string, n int) {
	c.mu.Lock()
	c.Counts[what] += n
	c.mu.Unlock()
}
func (c *Ctx) Skip(what string) {
	c.mu.Lock()
	c.Skips[what]++
	c.mu.Unlock()
}

func (c *Ctx) Sample(m map[string]any) {
	c.mu.Lock()
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, m)
	}
	c.mu.Unlock()
}

// Seen records a distinct non-trivial case by hash.
func (c *Ctx) Seen(h uint64) {
	c.mu.Lock()
	c.NonTriv[h] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Fail(key, cs, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.keys[key]++
	if c.keys[key] > 3 {
		return
	}
	d := fmt.Sprintf(format, a...)
	if len(d) > 4000 {
		d = d[:4000]
	}
	c.Viol = append(c.Viol, Violation{key, cs, d})
	fmt.Fprintf(os.Stderr, "  violation key=%s case=%s: %s\n", key, cs, strings.SplitN(d, "\n", 2)[0])
}

// Case runs one case; a panic of the code under test is itself a violation.
func (c *Ctx) Case(key, label string, f func()) {
	if c.Only != "" && c.Only != label {
		return
	}
	c.mu.Lock()
	c.Evals++
	c.mu.Unlock()
	if c.progress != nil {
		c.progress(key + " " + label)
	}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Fail("panic/"+key, label, "panic: %v\n%s", r, st)
		}
	}()
	c.kept = c.kept[:0]
	f()
	c.checkKept(label)
}

type Result struct {
	Evals    int              `json:"evals"`
	Distinct int              `json:"distinct"`
	Samples  []map[string]any `json:"samples"`
	Counts   map[string]int   `json:"counts"`
	Skips    map[string]int   `json:"skips"`
	Viol     []Violation      `json:"viol"`
	Keys     map[string]int   `json:"keys"`
}

func (c *Ctx) Result() Result {
	return Result{c.Evals, len(c.NonTriv), c.Samples, c.Counts, c.Skips, c.Viol, c.keys}
}

func hash64(parts ...any) uint64 {
	h := uint64(14695981039346656037)
	b := []byte(fmt.Sprint(parts...))
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	return h
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}
