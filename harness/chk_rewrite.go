package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C26", Level: "exploration", Quick: 900, Thorough: 8000, Run: runC26,
		Rule: "an answer of a rewritten filing compared with that of the original; identified by the canonical answer"})
	register(&Check{ID: "C27", Level: "exploration", Quick: 900, Thorough: 7000, Run: runC27,
		Rule: "an answer of a filing with renamed prefixes compared with that of the original; identified by the canonical answer"})
	register(&Check{ID: "C29", Level: "exploration", Quick: 900, Thorough: 4500, Run: runC29,
		Rule: "an answer of a filing written in other encodings and quotings compared with that of the original; identified by the canonical answer"})
}

func rewrites(w *World, c *Case, facts bool, lay func(i int) *Layout) {
	p := stdProf()
	p.Inline = 40
	p.Small = !c.Pct(20) // each is answered in full three times
	if c.Pct(20) {
		p.Wide = true
	}
	f := GenFiling(c.Rng, w, w.newID(), p)
	f.Write(w.folder(f.ID), func(string) *Layout { return plainLayout(newRng("plain")) })
	defer w.drop(f)
	first := w.answers(c, f, facts)
	if len(first) == 0 {
		return
	}
	orig := f.ID
	base := f.TagName
	for i := 0; i < 2; i++ {
		f.ID = w.newID()
		f.Write(w.folder(f.ID), func(string) *Layout { return lay(i) })
		c.FilingDir = w.folder(f.ID)
		again := w.answers(c, f, facts)
		for _, what := range keysOf(first) {
			c.Eval()
			a, b := canonAnswer(what, first[what]), canonAnswer(what, again[what])
			if a != b {
				c.Fail("%s of %s and of its rewritten copy %s differ: %s", what, orig, f.ID, lineDiff(a, b))
				continue
			}
			c.Distinct(a)
			c.Count(strings.Fields(what)[0]+" answers compared", 1)
		}
		if len(first) != len(again) {
			c.Fail("%s has %d answers, its rewritten copy %s %d", orig, len(first), f.ID, len(again))
		}
		w.drop(f)
	}
	f.TagName = base
	c.Sample("%d answers of a filing with %d facts, %d roles, %d contexts", len(first), len(f.Facts), len(f.Roles), len(f.Ctxs))
}

func lineDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	d := diffSets(x, y)
	if d == "" {
		return fmt.Sprintf("the same in another order: %q and %q", x, y)
	}
	return d
}

func runC26(w *World, c *Case) {
	rewrites(w, c, true, func(i int) *Layout {
		return &Layout{R: c.Rng, Shuffle: true, Space: c.Pct(50), Comment: c.Pct(20)}
	})
}

func runC27(w *World, c *Case) {
	rewrites(w, c, false, func(i int) *Layout {
		return &Layout{R: c.Rng, Prefixes: c.In(1, 2), Default: c.Pct(60), Twice: c.Pct(50)}
	})
}

func runC29(w *World, c *Case) {
	encs := []string{"", "utf-8", "none", "ISO-8859-1", "iso-8859-1", "windows-1252", "Windows-1252", "us-ascii", "US-ASCII"}
	rewrites(w, c, true, func(i int) *Layout {
		lay := &Layout{R: c.Rng, Enc: pick(c.Rng, encs), Mark: c.Pct(30), Quote: c.Pct(50), Comment: c.Pct(40)}
		if c.Pct(60) {
			lay.Refs = pick(c.Rng, []int{1, 5, 30})
		}
		return lay
	})
}
