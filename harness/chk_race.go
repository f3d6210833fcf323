//go:build check_C01

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	register(&Check{ID: "C01", Level: "exploration", Quick: 96, Thorough: 1200, Worlds: 48, Run: runC01, Env: raceEnv, After: raceAfter,
		Rule: "a batch of concurrent requests run under the race detector; identified by the kinds of requests, whether cold, and how many folders",
		Assumptions: []string{"the race detector reports conflicting accesses that the executed synchronisation does not order; schedules are those that happened",
			"a conflict the runtime did not execute is not seen"}})
}

func raceEnv(dir string) []string {
	return []string{"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=200 history_size=3 log_path=" + filepath.Join(dir, "race")}
}

var raceFrame = regexp.MustCompile(`(?m)^  (ecksbee\.com/telefacts/\S+)\(.*\n\s+(\S+)`)

// raceAfter turns the reports of the race detector into violations.
func raceAfter(p *Parent, dir string, r *Result) {
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") {
				continue
			}
			// the accesses, without the places where the goroutines were created
			accesses := block
			if i := strings.Index(accesses, "\nGoroutine "); i > 0 {
				accesses = accesses[:i]
			}
			var frames []string
			blamed := false
			for _, m := range raceFrame.FindAllStringSubmatch(block, -1) {
				frames = append(frames, m[1])
			}
			for _, m := range raceFrame.FindAllStringSubmatch(accesses, -1) {
				if !strings.Contains(m[1], "verifharness") {
					blamed = true
				}
			}
			if !blamed {
				p.errorf("data race outside the code under test:\n%s", block)
				continue
			}
			key := strings.Join(frames, " ")
			if seen[key] {
				continue
			}
			seen[key] = true
			if len(r.Violations) < 6 {
				r.Violations = append(r.Violations, Violation{Property: "C01", Case: -1, Seed: seed, Tier: tier, Message: "data race:\n" + clipText(block, 4000),
					Replay: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash harness/run.sh C01", seed, tier)})
			}
		}
	}
}

func runC01(w *World, c *Case) {
	p := stdProf()
	p.Inline, p.Ctxs, p.Concepts, p.Roles, p.Globals = 60, [2]int{2, 6}, [2]int{3, 10}, [2]int{1, 3}, 80
	// taxonomies nobody has read yet
	w2 := *w
	gw := &World{Idx: w.Idx, GTS: w.GTS}
	gw.makeGlobalsAt(newRng("global", seed, c.Index), []string{fmt.Sprintf("http://case%d.example/a.xsd", c.Index), fmt.Sprintf("http://case%d.example/b.xsd", c.Index)})
	w2.Globals = gw.Globals
	var fs []*Filing
	for i := c.In(1, 3); i > 0; i-- {
		f := GenFiling(c.Rng, &w2, w.newID(), p)
		if c.Pct(30) {
			f.Images = map[string][]byte{"pic.png": picture(c.Rng)}
			f.DocBody = `<p><img src="pic.png"/></p>`
		}
		f.WriteAny(w.folder(f.ID), c.Rng)
		fs = append(fs, f)
		defer w.drop(f)
	}
	together := func(what string, targets []string, more ...func()) []Resp {
		resps := make([]Resp, len(targets))
		var wg sync.WaitGroup
		gate := make(chan bool)
		for i := range targets {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-gate
				resps[i] = w.get(targets[i])
			}(i)
		}
		for _, f := range more {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				<-gate
				f()
			}(f)
		}
		close(gate)
		wg.Wait()
		c.Eval()
		c.Count("concurrent requests", len(targets))
		kinds := map[string]int{}
		for i, t := range targets {
			kinds[kindOf(restOf(t))]++
			if resps[i].Status == 0 {
				c.Fail("%s was not answered: %s", t, resps[i].Panic)
			}
		}
		c.Distinct(what, fmt.Sprint(kinds), len(fs), len(more))
		c.Sample("%s: %v over %d folders", what, kinds, len(fs))
		return resps
	}
	newFolder := func(key string) func() {
		return func() {
			serializables.NewFolder(key, serializables.Underscore{Entry: "x.xml"})
		}
	}
	// cold: what is asked for first must be guessed
	var cold []string
	for _, f := range fs {
		for k := c.In(1, 4); k > 0; k-- {
			switch c.Intn(4) {
			case 0:
				cold = append(cold, netURL(f.ID, "nosuch"))
			case 1:
				cold = append(cold, netURL(f.ID, f.Entry))
			case 2:
				n := 0
				for _, x := range f.Facts {
					if name := f.TagName[x]; name != "" && n < 3 {
						n++
						cold = append(cold, factURL(f.ID, name, x.Ctx.ID))
					}
				}
			default:
				cold = append(cold, folderURL(f.ID))
			}
		}
	}
	shuffle(c.Rng, cold)
	key := fmt.Sprint("key", c.Index)
	together("cold", cold, newFolder(key), newFolder(key), newFolder(""))
	// everything, twice, at the same time
	var all []string
	for _, f := range fs {
		r := w.get(folderURL(f.ID))
		if !r.ok() {
			c.Fail("catalog: %s", r)
			return
		}
		cat := &OCatalog{}
		json.Unmarshal([]byte(r.Body), cat)
		for _, rest := range append([]string{""}, sample(c.Rng, targetsOf(f, r.Body), 10)...) {
			all = append(all, folderURL(f.ID)+rest, folderURL(f.ID)+rest)
		}
	}
	shuffle(c.Rng, all)
	resps := together("first", all, newFolder(key), newFolder(""))
	answers := map[string]string{}
	for i, t := range all {
		if !resps[i].ok() {
			c.Fail("%s: %s", t, resps[i])
		}
		answers[t] = resps[i].Body
	}
	sort.Strings(all)
	together("again", all)
	// from the start, under other names
	var again []string
	for _, f := range fs {
		id := w.newID()
		copyFolder(w.folder(f.ID), w.folder(id))
		defer os.RemoveAll(w.folder(id))
		for t := range answers {
			if strings.HasPrefix(t, folderURL(f.ID)+"/") {
				again = append(again, folderURL(id)+strings.TrimPrefix(t, folderURL(f.ID)))
			}
		}
	}
	sort.Strings(again)
	if len(again) > 24 {
		again = again[:24]
	}
	together("from the start", again)
}

func restOf(t string) string {
	t = strings.TrimPrefix(t, "/folders/")
	if i := strings.Index(t, "/"); i >= 0 {
		return t[i:]
	}
	return ""
}
