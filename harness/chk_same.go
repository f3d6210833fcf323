package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration", Quick: 160, Thorough: 1000, Run: runC05,
		Rule:        "an answer computed several times from the same bytes; identified by the answer",
		Assumptions: []string{"schedules and map iteration orders are those the runtime happens to choose over the repeated computations"}})
}

// targetsOf lists the addresses of every answer of a filing, given its catalog.
func targetsOf(f *Filing, catalog string) []string {
	cat := &OCatalog{}
	json.Unmarshal([]byte(catalog), cat)
	var ret []string
	for _, e := range keysOf(cat.Networks) {
		for _, role := range keysOf(cat.Networks[e]) {
			ret = append(ret, "/"+cat.Networks[e][role])
		}
	}
	if f.Inline {
		ret = append(ret, netURL("", f.Entry)[len("/folders/"):])
		n := 0
		for _, x := range f.Facts {
			if name := f.TagName[x]; name != "" && n < 6 {
				n++
				ret = append(ret, factURL("", name, x.Ctx.ID)[len("/folders/"):])
			}
		}
	}
	return ret
}

func runC05(w *World, c *Case) {
	p := stdProf()
	p.Inline = 40
	p.Ctxs = [2]int{3, 12}
	p.Foots = [2]int{0, 4}
	p.Roles = [2]int{1, 5}
	p.Ents = [2]int{1, 4}
	p.Wide = c.Pct(25)
	p.Fill = pick(c.Rng, []int{30, 60, 90})
	f := GenFiling(c.Rng, w, w.newID(), p)
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	defer w.drop(f)
	first := w.get(folderURL(f.ID))
	if !first.ok() {
		c.Fail("catalog: %s", first)
		return
	}
	rests := append([]string{""}, targetsOf(f, first.Body)...)
	ref := make([]string, len(rests))
	for i, rest := range rests {
		resp := w.get(folderURL(f.ID) + rest)
		if !resp.ok() {
			c.Fail("%s: %s", rest, resp)
			return
		}
		ref[i] = resp.Body
		c.Distinct(resp.Body)
	}
	judge := func(how string, i int, resp Resp) {
		c.Eval()
		if !resp.ok() || resp.Body != ref[i] {
			c.Fail("%s: %s was answered %s", how, rests[i], firstDiff(ref[i], resp.Body+resp.Panic))
		}
	}
	// the same files under other names, in this process
	var copies []string
	for k := 0; k < 4; k++ {
		id := w.newID()
		copyFolder(w.folder(f.ID), w.folder(id))
		copies = append(copies, id)
		defer os.RemoveAll(w.folder(id))
		for i, rest := range rests {
			judge("computed again in the same process", i, w.get(folderURL(id)+rest))
		}
	}
	// other processes
	for _, procs := range sample(c.Rng, []string{"1", "2", "8", "16"}, 2) {
		s := w.fresh(c, "GOMAXPROCS="+procs)
		together := c.Pct(50)
		for _, id := range append([]string{f.ID}, copies[0]) {
			var targets []string
			for _, rest := range rests {
				targets = append(targets, folderURL(id)+rest)
			}
			if together {
				for i, resp := range s.ask(targets...) {
					judge(fmt.Sprintf("in a new process with %s threads, all at once", procs), i, resp)
				}
			} else {
				for i := range targets {
					for _, resp := range s.ask(targets[i]) {
						judge(fmt.Sprintf("in a new process with %s threads", procs), i, resp)
					}
				}
			}
		}
		s.stop()
		c.Count("processes", 1)
	}
	c.Sample("%d answers of a filing with %d contexts and %d facts", len(rests), len(f.Ctxs), len(f.Facts))
}

func copyFolder(from, to string) {
	must(os.MkdirAll(to, 0755))
	es, err := os.ReadDir(from)
	must(err)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		must(err)
		must(os.WriteFile(filepath.Join(to, e.Name()), b, 0644))
	}
}
