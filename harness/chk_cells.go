package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C06", Level: "exploration", Quick: 2400, Thorough: 20000, Run: runC06,
		Rule: "a grid that has at least one column and whose rows and contexts have not been seen with the same values before; identified by its rows and the multiset of its expected columns"})
	register(&Check{ID: "C07", Level: "exploration", Quick: 2400, Thorough: 18000, Run: runC07,
		Rule: "a grid with at least one dimensioned column; identified by its rows and the headings expected"})
}

func runC06(w *World, c *Case) {
	p := stdProf()
	if c.Pct(30) {
		p.Fill, p.Ctxs, p.Wide = 60, [2]int{4, 16}, true
	}
	f := w.add(c, p)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		for _, g := range n.grids() {
			c.Eval()
			if s := g.shape(); s != "" {
				c.Fail("%s of %s for %v: %s", g.What, n.Role.URI, n.Ent, s)
				continue
			}
			var want, got []string
			cells := 0
			for _, ctx := range f.relevant(g.Rows, n.Ent) {
				v := f.vector(g.Rows, ctx)
				want = append(want, joined(v))
			}
			for j := range g.PeriodHeaders {
				got = append(got, joined(g.column(j)))
				cells += len(g.Rows)
			}
			if d := diffSets(want, got); d != "" {
				c.Fail("%s of %s for %v, rows %q: columns of values: %s", g.What, n.Role.URI, n.Ent, g.Rows, d)
				continue
			}
			c.Count("columns", len(got))
			c.Count("cells", cells)
			if len(got) > 0 {
				sort.Strings(want)
				c.Distinct(g.Rows, want)
				c.Sample("%s: %d rows, %d columns, first column %s", g.What, len(g.Rows), len(got), got[0])
			}
		}
	}
}

// lineRoots gives the roots of the item trees that are not a dimension's domain.
func (d *DNet) lineRoots() []*Concept {
	src, tgt, dom := map[*Concept]bool{}, map[*Concept]bool{}, map[*Concept]bool{}
	var order []*Concept
	for _, a := range d.Arcs {
		switch a.Arcrole {
		case arcDomMem:
			if !src[a.From] {
				order = append(order, a.From)
			}
			src[a.From] = true
			tgt[a.To] = true
		case arcDimDom, arcDimDef:
			dom[a.To] = true
		}
	}
	var ret []*Concept
	for _, c := range order {
		if !tgt[c] && !dom[c] {
			ret = append(ret, c)
		}
	}
	return ret
}

// Item is a line item with its depth (the root has depth -1).
type Item struct {
	C     *Concept
	Level int
}

func (d *DNet) kids(c *Concept, arcrole string) []*DArc {
	var ret []*DArc
	for _, a := range d.Arcs {
		if a.From == c && a.Arcrole == arcrole {
			ret = append(ret, a)
		}
	}
	sort.SliceStable(ret, func(i, j int) bool { return num(ret[i].Order) < num(ret[j].Order) })
	return ret
}

func (d *DNet) items(root *Concept) []Item {
	ret := []Item{{root, -1}}
	var walk func(c *Concept, level int)
	walk = func(c *Concept, level int) {
		for _, a := range d.kids(c, arcDomMem) {
			ret = append(ret, Item{a.To, level})
			walk(a.To, level+1)
		}
	}
	walk(root, 0)
	return ret
}

func runC07(w *World, c *Case) {
	p := stdProf()
	p.Members, p.Ctxs, p.Ents = 75, [2]int{2, 12}, [2]int{1, 2}
	p.Fill = 55
	if c.Pct(25) {
		p.Typed = 80
	}
	if c.Pct(25) {
		p.Typed = 0
		p.Dims = [2]int{3, 7}
	}
	f := w.add(c, p)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		for _, g := range n.grids() {
			c.Eval()
			if s := g.shape(); s != "" {
				c.Fail("%s of %s for %v: %s", g.What, n.Role.URI, n.Ent, s)
				continue
			}
			// columns are matched with contexts by the values they hold
			want, got := map[string][]string{}, map[string][]string{}
			dims := 0
			var all []string
			for _, ctx := range f.relevant(g.Rows, n.Ent) {
				v := joined(f.vector(g.Rows, ctx))
				want[v] = append(want[v], f.heading(ctx))
				all = append(all, f.heading(ctx))
				if len(ctx.Members) > 0 {
					dims++
				}
			}
			for j := range g.PeriodHeaders {
				v := joined(g.column(j))
				got[v] = append(got[v], g.heading(j))
			}
			bad := false
			for v := range want {
				if d := diffSets(want[v], got[v]); d != "" && !bad {
					bad = true
					c.Fail("%s of %s for %v: headings of the column with values %s: %s", g.What, n.Role.URI, n.Ent, v, d)
				}
			}
			for v := range got {
				if want[v] == nil && !bad {
					bad = true
					c.Fail("%s of %s for %v: a column with values %s that no context reports", g.What, n.Role.URI, n.Ent, v)
				}
			}
			if bad {
				continue
			}
			if s := voidOK(g.VoidQuadrant); s != "" {
				c.Fail("%s of %s: %s", g.What, n.Role.URI, s)
			}
			if s := g.columnOrder(); s != "" {
				c.Fail("%s of %s for %v: %s", g.What, n.Role.URI, n.Ent, s)
				continue
			}
			c.Count("columns", len(all))
			c.Count("dimensioned columns", dims)
			if dims > 0 {
				sort.Strings(all)
				c.Distinct(g.Rows, all)
				c.Sample("%s: %s", g.What, strings.Join(all, " || "))
			}
		}
	}
}

// voidOK checks that no dimension heading is repeated.
func voidOK(void []*OVoid) string {
	seen := map[string]bool{}
	for _, v := range void {
		if v == nil {
			return "a heading is null"
		}
		k := fmt.Sprint(v.Dimension.Href, v.IsParenthesized)
		if v.TypedDomain != nil {
			k += " " + v.TypedDomain.Href
		}
		if seen[k] {
			return "heading " + k + " is shown twice"
		}
		seen[k] = true
	}
	return ""
}

func (g *OGrid) columnOrder() string {
	for j := 1; j < len(g.PeriodHeaders); j++ {
		a, b := g.PeriodHeaders[j-1][langPure], g.PeriodHeaders[j][langPure]
		na := len(shownMembers(g.VoidQuadrant, g.ContextualMemberGrid, j-1))
		nb := len(shownMembers(g.VoidQuadrant, g.ContextualMemberGrid, j))
		if a > b {
			return fmt.Sprintf("column %q comes before %q", a, b)
		}
		if a == b && na > 0 && nb == 0 {
			return fmt.Sprintf("in period %q a dimensioned column comes before an undimensioned one", a)
		}
	}
	return ""
}
