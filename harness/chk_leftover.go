package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{ID: "C31", Level: "exploration", Quick: 1200, Thorough: 12000, Run: runC31,
		Rule:        "a batch of requests against new folders, judged by what runs, is open and has changed once it is answered; identified by the statuses and the answers",
		Assumptions: []string{"goroutines that are still there 20 s after the last answer, and grow in number from round to round, are taken to stay"}})
}

// busy lists the goroutines that run the code under test or were started by it.
func busy() []string {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	var ret []string
	for i, g := range strings.Split(string(b), "\n\n") {
		if i > 0 && repoFrame.MatchString(g) {
			ret = append(ret, g)
		}
	}
	return ret
}

// openFiles counts the open file descriptors that lead to files.
func openFiles() (int, string) {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	n := 0
	var names []string
	for _, e := range es {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(to, "/") && !strings.HasPrefix(to, "/proc/") && !strings.HasPrefix(to, "/dev/") {
			n++
			names = append(names, to)
		}
	}
	return n, strings.Join(names, " ")
}

// picture of everything in a directory
func treeState(dirs ...string) map[string]string {
	ret := map[string]string{}
	for _, d := range dirs {
		filepath.Walk(d, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			s := info.Mode().String()
			if info.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				s += fmt.Sprintf(" %x %d", sha256.Sum256(b), info.ModTime().UnixNano())
			}
			ret[p] = s
			return nil
		})
	}
	return ret
}

func runC31(w *World, c *Case) {
	gc := debug.SetGCPercent(-1) // a forgotten file must not be closed by the collector
	defer func() {
		debug.SetGCPercent(gc)
		runtime.GC()
	}()
	p := stdProf()
	p.Inline, p.Roles, p.Ctxs, p.Concepts = 60, [2]int{1, 2}, [2]int{1, 3}, [2]int{3, 6}
	f := GenFiling(c.Rng, w, w.newID(), p)
	if c.Pct(40) {
		f.Images = map[string][]byte{"pic.png": picture(c.Rng), "no.png": notPicture(c.Rng)}
	}
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	defer w.drop(f)
	kind := "whole"
	if c.Pct(60) {
		// one of its files is missing, cut short, garbled or a directory
		es, err := os.ReadDir(w.folder(f.ID))
		must(err)
		name := pick(c.Rng, es).Name()
		if c.Pct(30) {
			name = pick(c.Rng, []string{"_", f.Entry, instanceName(f)})
		}
		path := filepath.Join(w.folder(f.ID), name)
		b, _ := os.ReadFile(path)
		must(os.RemoveAll(path))
		switch kind = pick(c.Rng, []string{"missing", "cut", "garbled", "directory", "empty"}); kind {
		case "cut":
			b = b[:c.Intn(len(b)+1)]
			must(os.WriteFile(path, b, 0644))
		case "garbled":
			for i := c.In(1, 5); i > 0 && len(b) > 0; i-- {
				b[c.Intn(len(b))] = byte(c.Intn(256))
			}
			must(os.WriteFile(path, b, 0644))
		case "empty":
			must(os.WriteFile(path, nil, 0644))
		case "directory":
			must(os.MkdirAll(path, 0755))
		}
		kind += " " + filepath.Ext(name)
	}
	const rounds = 6
	ids := make([]string, rounds)
	for i := range ids {
		ids[i] = w.newID()
		copyTree(w.folder(f.ID), w.folder(ids[i]))
		defer os.RemoveAll(w.folder(ids[i]))
	}
	together := c.Pct(40)
	targets := func(id string) []string {
		ts := []string{folderURL(id), netURL(id, f.Entry), netURL(id, "0000"), folderURL(id), folderURL(id + "-none"), factURL(id, "a:b", "c")}
		for _, x := range f.Facts {
			if name := f.TagName[x]; name != "" && len(ts) < 9 {
				ts = append(ts, factURL(id, name, x.Ctx.ID))
			}
		}
		return ts
	}
	before := treeState(w.WD, w.GTS)
	var running, open []int
	var seen []string
	settle := func(limit int, patience time.Duration) int {
		n := len(busy())
		for end := time.Now().Add(patience); n > limit && time.Now().Before(end); n = len(busy()) {
			time.Sleep(2 * time.Millisecond)
		}
		return n
	}
	for i, id := range ids {
		ts := targets(id)
		if together {
			var wg sync.WaitGroup
			for _, t := range ts {
				wg.Add(1)
				go func(t string) {
					defer wg.Done()
					w.get(t)
				}(t)
			}
			wg.Wait()
		} else {
			for _, t := range ts {
				resp := w.get(t)
				seen = append(seen, fmt.Sprint(resp.Status, len(resp.Body)))
			}
		}
		// networks listed by the catalog
		if resp := w.get(folderURL(id)); resp.ok() {
			for k, rest := range targetsOf(f, resp.Body) {
				if k < 3 {
					w.get(folderURL(id) + rest)
				}
			}
		}
		c.Eval()
		limit := 0
		if i > 0 {
			limit = running[0]
		}
		running = append(running, settle(limit, 300*time.Millisecond))
		n, _ := openFiles()
		open = append(open, n)
		c.Count("rounds", 1)
	}
	c.Distinct(kind, together, seen)
	c.Count("folders "+strings.Fields(kind)[0], 1)
	grows := func(n []int) bool {
		for i := 2; i < len(n); i++ {
			if n[i] <= n[i-1] {
				return false
			}
		}
		return true
	}
	if grows(running) && settle(running[1], 20*time.Second) > running[1] {
		gs := busy()
		c.Fail("goroutines after each round of requests (%s): %v; the last one is\n%s", kind, running, clipText(gs[len(gs)-1], 2500))
	}
	if grows(open) {
		if n, names := openFiles(); n > open[1] {
			c.Fail("open files after each round of requests (%s): %v: %s", kind, open, clipText(names, 1500))
		}
	}
	after := treeState(w.WD, w.GTS)
	for _, p := range keysOf(before) {
		if after[p] != before[p] {
			c.Fail("answering requests changed %s: %s before, %q after", p, before[p], after[p])
		}
	}
	for _, p := range keysOf(after) {
		if _, ok := before[p]; !ok {
			c.Fail("answering requests made %s", p)
		}
	}
	c.Sample("%s: goroutines %v, open files %v after each round", kind, running, open)
}
