package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C13", Level: "exploration", Quick: 2000, Thorough: 13000, Run: runC13,
		Rule: "a concept shown in a network that has at least one label besides its address; identified by address and labels"})
	register(&Check{ID: "C14", Level: "exploration", Quick: 2400, Thorough: 24000, Run: runC14,
		Rule: "a grid or single fact with at least one attached footnote; identified by the footnotes of its cells"})
}

// shownLabels lists every concept a network shows, with its labels; headings is set for those on
// the rows and columns of its grids.
func (n *Net) shownLabels(visit func(where, href string, l OLabel, heading bool)) {
	void := func(what string, g OGridCore) {
		for _, v := range g.VoidQuadrant {
			visit(what+" dimension", v.Dimension.Href, v.Dimension.Label, true)
			if v.TypedDomain != nil {
				visit(what+" typed domain", v.TypedDomain.Href, v.TypedDomain.Label, true)
			}
		}
		for _, row := range g.ContextualMemberGrid {
			for _, cell := range row {
				if cell != nil && cell.ExplicitMember != nil {
					visit(what+" member", cell.ExplicitMember.Href, cell.ExplicitMember.Label, true)
				}
			}
		}
	}
	for _, l := range n.PGrid.IndentedLabels {
		visit("presentation row", l.Href, l.Label, true)
	}
	void("presentation", n.PGrid.OGridCore)
	for _, rd := range n.DGrid.RootDomains {
		visit("line-item root", rd.Href, rd.Label, true)
		for _, l := range rd.PrimaryItems {
			visit("line item", l.Href, l.Label, true)
		}
		void("line items", rd.OGridCore)
		for _, x := range rd.EffectiveDimensions {
			visit("effective dimension", x.Href, x.Label, false)
		}
		for _, row := range rd.EffectiveDomainGrid {
			for _, cell := range row {
				for _, x := range cell {
					visit("effective member", x.Href, x.Label, false)
				}
			}
		}
	}
	for _, x := range n.DGrid.DRS.Nodes {
		visit("relationship node", x.Href, x.Label, false)
	}
	for _, si := range n.CGrid.SummationItems {
		visit("total", si.Href, si.Label, true)
		for _, x := range si.ContributingConcepts {
			visit("contribution", x.Href, x.Label, true)
		}
		void("calculation", si.OGridCore)
	}
}

func runC13(w *World, c *Case) {
	p := stdProf()
	p.Labels, p.Fill, p.Foots = 85, 20, [2]int{0, 0}
	if c.Pct(20) {
		p.Labels = 25
	}
	f := w.add(c, p)
	defer w.drop(f)
	by := f.byHref()
	for _, n := range w.networks(c, f) {
		roles, langs := map[string]bool{}, map[string]bool{}
		for _, r := range n.LabelRoles {
			if roles[r] {
				c.Fail("network %s announces label role %q twice", n.Role.URI, r)
			}
			roles[r] = true
		}
		for _, l := range n.Lang {
			if langs[l] {
				c.Fail("network %s announces language %q twice", n.Role.URI, l)
			}
			langs[l] = true
		}
		n.shownLabels(func(where, href string, l OLabel, heading bool) {
			c.Eval()
			if href == "" && len(l) == 0 {
				return
			}
			if by[href] == nil {
				return // a heading that names no concept is judged elsewhere
			}
			want := f.Labels(href)
			got := flatLabel(l)
			if d := diffPack(want, got); d != "" {
				c.Fail("%s of %s: labels of %s: %s", where, n.Role.URI, href, d)
				return
			}
			if heading {
				for role, m := range l {
					for lang := range m {
						if !roles[role] || !langs[lang] {
							c.Fail("network %s shows a %q label in %q for the %s %s but announces only %q in %q", n.Role.URI, role, lang, where, href, n.LabelRoles, n.Lang)
							return
						}
					}
				}
			}
			c.Count("labels", len(got))
			if len(want) > 2 {
				c.Distinct(href, keysOf(want), want)
				c.Sample("%s %s: %s", where, href, toJSON(want))
			}
		})
	}
}

func runC14(w *World, c *Case) {
	p := stdProf()
	p.Foots, p.Fill, p.Ctxs, p.Inline = [2]int{1, 4}, 45, [2]int{1, 6}, 40
	p.Labels = 20
	f := w.add(c, p)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		for _, g := range n.grids() {
			c.Eval()
			if s := g.shape(); s != "" {
				c.Fail("%s: %s", g.What, s)
				continue
			}
			var want, got []string
			any := false
			for _, ctx := range f.relevant(g.Rows, n.Ent) {
				var col []string
				for _, href := range g.Rows {
					x := f.Fact(href, ctx.ID)
					notes := f.FootsOf(x)
					any = any || len(notes) > 0
					col = append(col, cellWithNotes(factKey(x), notes))
				}
				want = append(want, joined(col))
			}
			used := map[int]bool{}
			bad := ""
			for j := range g.PeriodHeaders {
				var col []string
				for i := range g.Rows {
					var notes []string
					if i < len(g.FootnoteGrid) && j < len(g.FootnoteGrid[i]) {
						for _, k := range g.FootnoteGrid[i][j] {
							if k < 1 || k > len(g.Footnotes) {
								bad = fmt.Sprintf("footnote number %d of %d", k, len(g.Footnotes))
								continue
							}
							used[k] = true
							notes = append(notes, g.Footnotes[k-1])
						}
					}
					col = append(col, cellWithNotes(cellKey(g.FactualQuadrant[i][j]), notes))
				}
				got = append(got, joined(col))
			}
			if bad == "" {
				bad = diffSets(want, got)
			}
			times := map[string]int{}
			for _, l := range f.Foots {
				for _, fn := range l.Foots {
					times[fn.Text]++
				}
			}
			for k, text := range g.Footnotes {
				if !used[k+1] && bad == "" {
					bad = fmt.Sprintf("footnote %d %q is used by no cell", k+1, text)
				}
				if times[text]--; times[text] < 0 && bad == "" {
					bad = fmt.Sprintf("footnote %q is listed too often", text)
				}
			}
			if bad != "" {
				c.Fail("%s of %s for %v: cells with footnotes: %s", g.What, n.Role.URI, n.Ent, bad)
				continue
			}
			c.Count("footnotes listed", len(g.Footnotes))
			if any {
				sort.Strings(want)
				c.Distinct(g.Rows, want)
				c.Sample("%s: footnotes %q", g.What, g.Footnotes)
			}
		}
	}
	if !f.Inline {
		return
	}
	for _, x := range f.Facts {
		name := f.TagName[x]
		if name == "" || x.ID == "" {
			continue
		}
		ans := w.fact(c, f, name, x.Ctx.ID)
		if ans == nil {
			continue
		}
		c.Eval()
		notes := f.FootsOf(x)
		if d := diffSets(notes, ans.Footnotes); d != "" {
			c.Fail("single fact %s in %s: footnotes: %s", name, x.Ctx.ID, d)
			continue
		}
		if len(notes) > 0 {
			c.Distinct("single", notes)
			c.Count("single facts with footnotes", 1)
		}
	}
}

func cellWithNotes(key string, notes []string) string {
	n := append([]string{}, notes...)
	sort.Strings(n)
	return key + "{" + strings.Join(n, "; ") + "}"
}
