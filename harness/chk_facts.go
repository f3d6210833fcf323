package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C23", Level: "exploration", Quick: 1200, Thorough: 12000, Run: runC23,
		Rule: "a question for a single fact; identified by name, context, members of the context and expected value"})
}

func runC23(w *World, c *Case) {
	p := stdProf()
	p.Inline, p.Fill, p.Members, p.Foots = 100, 45, 70, [2]int{0, 3}
	p.Typed = pick(c.Rng, []int{0, 35, 80})
	f := w.add(c, p)
	defer w.drop(f)
	// how the grids display each value
	shown := map[string]map[OExpr]bool{}
	for _, n := range w.networks(c, f) {
		for _, g := range n.grids() {
			if g.shape() != "" {
				continue
			}
			for i := range g.FactualQuadrant {
				for _, cell := range g.FactualQuadrant[i] {
					k := g.Rows[i] + " " + exprKey(cell[langPure])
					if shown[k] == nil {
						shown[k] = map[OExpr]bool{}
					}
					shown[k][cell[langPure]] = true
				}
			}
		}
	}
	byName := map[string]*Concept{}
	var names []string
	for _, x := range f.Facts {
		if n := f.TagName[x]; n != "" {
			byName[n] = x.C
		}
	}
	names = keysOf(byName)
	for i, x := range f.Facts {
		name := f.TagName[x]
		if name == "" || i > 25 {
			continue
		}
		ans := w.fact(c, f, name, x.Ctx.ID)
		if ans == nil {
			continue
		}
		c.Eval()
		if s := f.answerOK(x, ans, shown); s != "" {
			c.Fail("single fact %s in %s: %s", name, x.Ctx.ID, s)
			continue
		}
		c.Distinct(name, f.heading(x.Ctx), factKey(x))
		c.Sample("%s in %s: %s", name, f.heading(x.Ctx), toJSON(ans.Expression))
		if len(x.Ctx.Members) > 0 {
			c.Count("facts with members", 1)
		}
		c.Count("facts", 1)
	}
	// questions without an answer
	ask := func(name, ctx string, x *Fact) {
		resp := w.get(factURL(f.ID, name, ctx))
		c.Eval()
		if resp.Status == 0 {
			c.Fail("fact %q in %q: %s", name, ctx, resp)
			return
		}
		c.Count("questions that may have no answer", 1)
		c.Distinct("no", name, ctx)
		if resp.Status >= 400 || strings.TrimSpace(resp.Body) == "" || resp.Body == "null" {
			return
		}
		ans := &OFact{}
		if err := json.Unmarshal([]byte(resp.Body), ans); err != nil {
			c.Fail("fact %q in %q: %v", name, ctx, err)
			return
		}
		if x == nil {
			c.Fail("there is no fact %q in %q, but the answer is %s", name, ctx, resp.Body)
			return
		}
		if s := f.answerOK(x, ans, shown); s != "" {
			c.Fail("fact %q in %q: %s", name, ctx, s)
		}
	}
	tagged := map[string]bool{}
	for x := range f.TagName {
		tagged[x.Ctx.ID] = true
	}
	for _, gt := range f.GhostTags {
		tagged[gt.Ctx] = true
	}
	for i := 0; i < 8 && len(names) > 0; i++ {
		name, ctx := pick(c.Rng, names), pick(c.Rng, f.Ctxs).ID
		if tagged[ctx] {
			ask(name, ctx, f.Fact(byName[name].Href(), ctx))
		}
	}
	// facts of the extracted instance that the document does not tag
	prefix := map[string]string{}
	taggedName := map[*Concept]bool{}
	for _, n := range names {
		prefix[byName[n].Sch.NS] = strings.SplitN(n, ":", 2)[0]
		taggedName[byName[n]] = true
	}
	for _, gt := range f.GhostTags {
		taggedName[gt.C] = true
	}
	k := 0
	for _, x := range f.Facts {
		if tagged[x.Ctx.ID] && taggedName[x.C] || prefix[x.C.Sch.NS] == "" || k > 8 {
			continue
		}
		k++
		ask(prefix[x.C.Sch.NS]+":"+x.C.Name, x.Ctx.ID, nil)
		c.Count("facts that are not tagged", 1)
	}
	for _, gt := range f.GhostTags {
		ask(gt.Name, gt.Ctx, f.Fact(gt.C.Href(), gt.Ctx))
	}
	if len(names) > 0 {
		n, ctx := pick(c.Rng, names), pick(c.Rng, f.Ctxs).ID
		for _, wrong := range []string{n + "X", strings.ToLower(n) + "_"} {
			exists := false
			for _, o := range f.Concepts() {
				exists = exists || strings.HasSuffix(wrong, ":"+o.Name)
			}
			if !exists {
				ask(wrong, ctx, nil)
			}
		}
		ask(n, ctx+".none", nil)
		ask(n, "", nil)
		ask("", ctx, nil)
		ask(byName[n].Name+"?", ctx, nil)
		ask("nosuch:"+byName[n].Name, ctx, nil)
	}
}

// answerOK judges the answer to a question for fact x.
func (f *Filing) answerOK(x *Fact, ans *OFact, shown map[string]map[OExpr]bool) string {
	if ans.Href != x.C.Href() {
		return fmt.Sprintf("the answer is about %s", ans.Href)
	}
	if d := diffPack(f.Labels(ans.Href), flatLabel(ans.Labels)); d != "" {
		return "labels: " + d
	}
	if got := ans.Context.Period[langPure]; got != x.Ctx.period() {
		return fmt.Sprintf("period %q instead of %q", got, x.Ctx.period())
	}
	if len(ans.Context.VoidQuadrant) != len(ans.Context.ContextualMemberGrid) {
		return "headings and members do not fit together"
	}
	for _, row := range ans.Context.ContextualMemberGrid {
		if len(row) != 1 {
			return fmt.Sprintf("%d columns of members", len(row))
		}
	}
	if s := voidOK(ans.Context.VoidQuadrant); s != "" {
		return s
	}
	h := ans.Context.Period[langPure] + " " + strings.Join(shownMembers(ans.Context.VoidQuadrant, ans.Context.ContextualMemberGrid, 0), "; ")
	if want := f.heading(x.Ctx); h != want {
		return fmt.Sprintf("context %q instead of %q", h, want)
	}
	e, ok := ans.Expression[langPure]
	if !ok {
		return "no display"
	}
	if got, want := exprKey(e), factKey(x); got != want {
		return fmt.Sprintf("value %s instead of %s", got, want)
	}
	if set := shown[ans.Href+" "+exprKey(e)]; set != nil && factKey(x) != "nil" && !set[e] {
		var others []string
		for o := range set {
			others = append(others, toJSON(o))
		}
		sort.Strings(others)
		return fmt.Sprintf("shown as %s but as %s in the grids", toJSON(e), others)
	}
	if d := diffSets(f.FootsOf(x), ans.Footnotes); d != "" {
		return "footnotes: " + d
	}
	return ""
}
