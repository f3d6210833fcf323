// Package main is the monitoring harness. It is compiled into the repository through a build
// overlay (see run.sh), drives the real code with generated filings and request histories,
// and decides each property with an oracle over what was observed.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Check is one registered property check.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	// Cases is the number of cases per tier; a case is replayed by its index alone.
	Quick, Thorough int
	// Worlds is the number of worker processes the cases are spread over (0: 16).
	Worlds int
	// MemMB limits the address space a worker's heap may take (0: no limit).
	MemMB int
	// Parallel is the number of workers run at the same time (0: 8).
	Parallel int
	// NoShared is set when Run must not find a shared world set up.
	NoShared bool
	Run      func(w *World, c *Case)
	// Own replaces the parent's orchestration by worker processes altogether.
	Own func(p *Parent) *Result
	// Env gives the environment of a worker, After looks at what it left in its directory.
	Env   func(dir string) []string
	After func(p *Parent, dir string, r *Result)
	// Post judges the merged observations of all workers.
	Post func(p *Parent, r *Result)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Rng is the source of every random choice.
type Rng struct{ *rand.Rand }

func newRng(parts ...interface{}) *Rng {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return &Rng{rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:8]))))}
}

func (r *Rng) Pct(p int) bool { return r.Intn(100) < p }

// In returns a number between a and b, both included.
func (r *Rng) In(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.Intn(b-a+1)
}

func pick[T any](r *Rng, s []T) T { return s[r.Intn(len(s))] }

func shuffle[T any](r *Rng, s []T) { r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] }) }

func sample[T any](r *Rng, s []T, n int) []T {
	c := append([]T{}, s...)
	shuffle(r, c)
	if n > len(c) {
		n = len(c)
	}
	return c[:n]
}

// Violation is a witness that the property does not hold.
type Violation struct {
	Property string
	Case     int
	Seed     int64
	Tier     string
	Message  string
	Filing   string `json:",omitempty"`
	Replay   string
}

// Result is what a worker, or the whole run, observed.
type Result struct {
	Evaluations int
	Distinct    map[string]bool
	Counters    map[string]int
	Samples     []string
	Violations  []Violation
	Known       map[string]bool
	Observed    map[string][]string // for Post
	Stalled     bool                // something never ended
}

func newResult() *Result {
	return &Result{Distinct: map[string]bool{}, Counters: map[string]int{}, Known: map[string]bool{}, Observed: map[string][]string{}}
}

func (r *Result) merge(o *Result) {
	r.Evaluations += o.Evaluations
	for k := range o.Distinct {
		r.Distinct[k] = true
	}
	for k, n := range o.Counters {
		r.Counters[k] += n
	}
	for k := range o.Known {
		r.Known[k] = true
	}
	for k, v := range o.Observed {
		r.Observed[k] = append(r.Observed[k], v...)
	}
	r.Samples = append(r.Samples, o.Samples...)
	r.Violations = append(r.Violations, o.Violations...)
}

// Case is one generated execution.
type Case struct {
	*Rng
	Index int
	Check *Check
	Res   *Result
	mu    sync.Mutex
	bad   int
	// dir of the filing the case is about; kept with the violation
	FilingDir string
}

// Fail records that the oracle refuted the property.
func (c *Case) Fail(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.bad++
	if c.bad > 3 || len(c.Res.Violations) >= 6 {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + " ..."
	}
	v := Violation{Property: c.Check.ID, Case: c.Index, Seed: seed, Tier: tier, Message: msg,
		Replay: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%d bash harness/run.sh %s", seed, tier, c.Index, c.Check.ID)}
	if c.FilingDir != "" {
		keep := filepath.Join(outDir, fmt.Sprintf("case-%d", c.Index))
		copyTree(c.FilingDir, keep)
		v.Filing = keep
	}
	c.Res.Violations = append(c.Res.Violations, v)
}

// Eval counts one execution judged by the oracle.
func (c *Case) Eval() {
	c.mu.Lock()
	c.Res.Evaluations++
	c.mu.Unlock()
}

// Distinct marks the execution as non-trivial, under a signature of what it exercised.
func (c *Case) Distinct(a ...interface{}) {
	h := sha256.Sum256([]byte(fmt.Sprintln(a...)))
	c.mu.Lock()
	c.Res.Distinct[fmt.Sprintf("%x", h[:9])] = true
	c.mu.Unlock()
}

func (c *Case) Count(name string, n int) {
	c.mu.Lock()
	c.Res.Counters[name] += n
	c.mu.Unlock()
}

func (c *Case) Sample(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.Res.Samples) < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 500 {
			s = s[:500] + " ..."
		}
		c.Res.Samples = append(c.Res.Samples, s)
	}
	c.mu.Unlock()
}

func (c *Case) Known(what string) {
	c.mu.Lock()
	c.Res.Known[what] = true
	c.mu.Unlock()
}

// Observe passes something on to the check's Post.
func (c *Case) Observe(key, what string) {
	c.mu.Lock()
	c.Res.Observed[key] = append(c.Res.Observed[key], what)
	c.mu.Unlock()
}

func copyTree(from, to string) {
	filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if info.IsDir() {
			os.MkdirAll(dst, 0755)
			return nil
		}
		if !info.Mode().IsRegular() || info.Size() > 1<<20 {
			return nil
		}
		if b, err := os.ReadFile(p); err == nil {
			os.WriteFile(dst, b, 0644)
		}
		return nil
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func toJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func keysOf[V any](m map[string]V) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

func sorted(s []string) []string {
	c := append([]string{}, s...)
	sort.Strings(c)
	return c
}

// diffSets describes how two multisets of strings differ ("" when equal).
func diffSets(want, got []string) string {
	n := map[string]int{}
	for _, s := range want {
		n[s]++
	}
	for _, s := range got {
		n[s]--
	}
	var missing, extra []string
	for _, k := range keysOf(n) {
		for i := 0; i < n[k]; i++ {
			missing = append(missing, k)
		}
		for i := 0; i > n[k]; i-- {
			extra = append(extra, k)
		}
	}
	if len(missing)+len(extra) == 0 {
		return ""
	}
	return fmt.Sprintf("missing %q, unexpected %q", clip(missing), clip(extra))
}

func clip(s []string) []string {
	if len(s) > 8 {
		return append(append([]string{}, s[:8]...), fmt.Sprintf("... %d more", len(s)-8))
	}
	return s
}

func joined(s []string) string { return strings.Join(s, "|") }
