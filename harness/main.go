package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	seed     int64 = 1
	tier           = "quick"
	outDir   string
	verifDir string
)

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func main() {
	seed = envInt("VERIF_SEED", 1)
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	verifDir = os.Getenv("VERIF_DIR")
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh run|worker|serve ID ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "aux":
		auxMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// auxiliary sub-processes registered by checks
var auxes = map[string]func(args []string){}

func auxMain(args []string) {
	f := auxes[args[0]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown auxiliary", args[0])
		os.Exit(2)
	}
	f(args[1:])
}

// Parent runs the workers of one check and writes the evidence.
type Parent struct {
	Check   *Check
	Scratch string
	mu      sync.Mutex
	errs    []string
}

func (p *Parent) errorf(format string, a ...interface{}) {
	p.mu.Lock()
	p.errs = append(p.errs, fmt.Sprintf(format, a...))
	p.mu.Unlock()
}

func (c *Check) cases() int {
	if tier == "thorough" && c.Thorough > 0 {
		return c.Thorough
	}
	// a development aid: a shorter list of the same cases
	return c.Quick / int(envInt("VERIF_SHARE", 1))
}

func parent(id string) int {
	start := time.Now()
	check := checks[id]
	if check == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	scratch, err := os.MkdirTemp("", "vh-"+id+"-")
	must(err)
	defer os.RemoveAll(scratch)
	evDir := filepath.Join(verifDir, "evidence")
	outDir = filepath.Join(evDir, "witness-"+id)
	os.RemoveAll(outDir)
	must(os.MkdirAll(evDir, 0755))
	p := &Parent{Check: check, Scratch: scratch}
	var res *Result
	if check.Own != nil {
		res = check.Own(p)
	} else {
		res = p.runWorkers()
	}
	if check.Post != nil && len(p.errs) == 0 {
		check.Post(p, res)
	}
	listed := knownFindings(id)
	for _, k := range keysOf(res.Known) {
		if listed[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		} else {
			res.Violations = append(res.Violations, Violation{Message: k})
		}
	}
	wall := time.Since(start).Seconds()
	writeEvidence(check, res, wall)
	fmt.Printf("%s: %d executions judged, %d distinct non-trivial, %d violations, %.1fs\n",
		id, res.Evaluations, len(res.Distinct), len(res.Violations), wall)
	for _, k := range keysOf(res.Counters) {
		fmt.Printf("  %s = %d\n", k, res.Counters[k])
	}
	if len(res.Violations) > 0 {
		os.MkdirAll(outDir, 0755)
		replay := filepath.Join(outDir, "violation.json")
		b, _ := json.MarshalIndent(res.Violations, "", " ")
		os.WriteFile(replay, b, 0644)
		for i, v := range res.Violations {
			if i < 5 {
				fmt.Printf("case %d: %s\n", v.Case, v.Message)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if len(p.errs) > 0 {
		for i, e := range p.errs {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "check error:", e)
			}
		}
		return 2
	}
	if os.Getenv("VERIF_CASE") == "" && (res.Evaluations == 0 || len(res.Distinct) < 2) {
		fmt.Fprintln(os.Stderr, "check error: nothing was observed")
		return 2
	}
	return 0
}

// knownFindings are the findings listed for a property in the committed file.
func knownFindings(id string) map[string]bool {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	must(err)
	ret := map[string]bool{}
	for _, line := range strings.Split(string(b), "\n") {
		if what, ok := strings.CutPrefix(line, "known: property="+id+" "); ok {
			ret[strings.TrimSpace(what)] = true
		}
	}
	return ret
}

func writeEvidence(check *Check, res *Result, wall float64) {
	samples := res.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []string{}
	}
	coverage := map[string]interface{}{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": len(res.Distinct),
		"rule":                check.Rule,
		"samples":             samples,
	}
	for k, n := range res.Counters {
		coverage["observed_"+strings.ReplaceAll(k, " ", "_")] = n
	}
	ev := map[string]interface{}{
		"property":    check.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       check.Level,
		"coverage":    coverage,
		"assumptions": check.Assumptions,
		"wall_s":      wall,
		"violations":  len(res.Violations),
	}
	if check.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(verifDir, "evidence", check.ID+".json"), append(b, '\n'), 0644))
}

func (p *Parent) runWorkers() *Result {
	worlds := p.Check.Worlds
	if worlds == 0 {
		worlds = 16
	}
	par := p.Check.Parallel
	if par == 0 {
		par = 8
	}
	if n := p.Check.cases(); worlds > n {
		worlds = n
	}
	res := newResult()
	sem := make(chan bool, par)
	var stalled atomic.Bool
	var wg sync.WaitGroup
	out := make([]*Result, worlds)
	only := -1
	if v := os.Getenv("VERIF_CASE"); v != "" {
		n, _ := strconv.Atoi(v)
		only = n % worlds
	}
	for i := 0; i < worlds; i++ {
		if only >= 0 && i != only {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			// waiting once for what never ends is enough
			if !stalled.Load() {
				out[i] = p.worker(i, worlds)
				if out[i].Stalled {
					stalled.Store(true)
				}
			}
		}(i)
	}
	wg.Wait()
	for _, r := range out {
		if r != nil {
			res.merge(r)
		}
	}
	sort.SliceStable(res.Violations, func(i, j int) bool { return res.Violations[i].Case < res.Violations[j].Case })
	return res
}

var repoFrame = regexp.MustCompile(`ecksbee\.com/telefacts/(pkg|internal/(web|graph|actions))`)

// worker runs one worker process and judges how it ended.
func (p *Parent) worker(i, worlds int) *Result {
	dir := filepath.Join(p.Scratch, fmt.Sprintf("world-%d", i))
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	resFile := filepath.Join(dir, "result.json")
	cmd := exec.Command(os.Args[0], "worker", p.Check.ID, strconv.Itoa(i), strconv.Itoa(worlds), dir, resFile)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_OUT="+outDir, "TMPDIR="+dir, "GOTRACEBACK=all")
	if p.Check.MemMB > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_MEMMB=%d", p.Check.MemMB))
	}
	if p.Check.Env != nil {
		cmd.Env = append(cmd.Env, p.Check.Env(dir)...)
	}
	stderr, err := os.Create(filepath.Join(dir, "stderr"))
	must(err)
	defer stderr.Close()
	cmd.Stderr = stderr
	stdout, err := cmd.StdoutPipe()
	must(err)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	lines := make(chan string)
	go func() {
		s := bufio.NewScanner(stdout)
		s.Buffer(make([]byte, 1<<20), 1<<26)
		for s.Scan() {
			if strings.HasPrefix(s.Text(), "\x01case ") {
				lines <- s.Text()
			}
		}
		close(lines)
	}()
	current := -1
	stalled := false
	const patience = 150 * time.Second
	timer := time.NewTimer(patience)
loop:
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				break loop
			}
			current, _ = strconv.Atoi(strings.TrimPrefix(l, "\x01case "))
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(patience)
		case <-timer.C:
			stalled = true
			cmd.Process.Signal(syscall.SIGQUIT)
			time.AfterFunc(10*time.Second, func() { cmd.Process.Kill() })
			timer.Reset(patience)
		}
	}
	werr := cmd.Wait()
	res := newResult()
	b, err := os.ReadFile(resFile)
	if err == nil {
		if json.Unmarshal(b, res) != nil {
			res = newResult()
		}
	}
	if p.Check.After != nil {
		p.Check.After(p, dir, res)
	}
	if werr == nil {
		return res
	}
	text, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	if i := bytes.LastIndex(text, []byte("\npanic: ")); i > 0 {
		text = text[i:]
	}
	what := "the process ended: " + werr.Error()
	if stalled {
		what = fmt.Sprintf("no progress for %s", patience)
	}
	head := string(text)
	if len(head) > 3500 {
		head = head[:3500]
	}
	if blame(string(text), stalled) {
		v := Violation{Property: p.Check.ID, Case: current, Seed: seed, Tier: tier,
			Message: what + " while serving case; goroutines in the code under test:\n" + head,
			Replay:  fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%d bash harness/run.sh %s", seed, tier, current, p.Check.ID)}
		res.Violations = append(res.Violations, v)
		res.Stalled = res.Stalled || stalled
		return res
	}
	p.errorf("worker %d, case %d: %s\n%s", i, current, what, head)
	return res
}

// blame tells whether the goroutine that ended the process (or, after a stall, any goroutine)
// was executing the code under test.
func blame(text string, stalled bool) bool {
	if stalled {
		return repoFrame.MatchString(text)
	}
	if strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory") {
		return repoFrame.MatchString(text)
	}
	i := strings.Index(text, "\ngoroutine ")
	if i < 0 {
		return false
	}
	first := text[i+1:]
	if j := strings.Index(first, "\n\n"); j > 0 {
		first = first[:j]
	}
	return repoFrame.MatchString(first)
}

func worker(args []string) {
	check := checks[args[0]]
	idx, _ := strconv.Atoi(args[1])
	worlds, _ := strconv.Atoi(args[2])
	dir, resFile := args[3], args[4]
	outDir = os.Getenv("VERIF_OUT")
	if mb := envInt("VERIF_MEMMB", 0); mb > 0 {
		limit := uint64(mb) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: limit, Max: limit})
		debug.SetMemoryLimit(int64(limit) * 3 / 4)
	}
	stdout := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null // the code under test prints
	res := newResult()
	save := func() {
		b, err := json.Marshal(res)
		must(err)
		must(os.WriteFile(resFile+".tmp", b, 0644))
		must(os.Rename(resFile+".tmp", resFile))
	}
	var w *World
	if !check.NoShared {
		w = newWorld(filepath.Join(dir, "w"), idx)
		w.start()
	} else {
		w = &World{Idx: idx, Dir: filepath.Join(dir, "w")}
		must(os.MkdirAll(w.Dir, 0755))
	}
	only := int(envInt("VERIF_CASE", -1))
	for c := idx; c < check.cases(); c += worlds {
		if only >= 0 && c != only {
			continue
		}
		fmt.Fprintf(stdout, "\x01case %d\n", c)
		one := &Case{Rng: newRng(seed, check.ID, c), Index: c, Check: check, Res: res}
		check.Run(w, one)
		if one.bad > 0 || c%64 == 0 {
			save()
		}
		if len(res.Violations) >= 6 || res.Stalled {
			break
		}
	}
	save()
}
