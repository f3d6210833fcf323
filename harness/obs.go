package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// OGrid is one grid of a network, whatever its kind.
type OGrid struct {
	What string
	Rows []string // concept addresses, in the order of the factual rows
	OGridCore
}

func (n *Net) grids() []OGrid {
	var ret []OGrid
	p := OGrid{What: "presentation grid", OGridCore: n.PGrid.OGridCore}
	for _, l := range n.PGrid.IndentedLabels {
		p.Rows = append(p.Rows, l.Href)
	}
	ret = append(ret, p)
	for _, rd := range n.DGrid.RootDomains {
		g := OGrid{What: "line-item group " + rd.Href, OGridCore: rd.OGridCore, Rows: []string{rd.Href}}
		for _, l := range rd.PrimaryItems {
			g.Rows = append(g.Rows, l.Href)
		}
		ret = append(ret, g)
	}
	for _, si := range n.CGrid.SummationItems {
		g := OGrid{What: "calculation " + si.Href, OGridCore: si.OGridCore}
		for _, l := range si.ContributingConcepts {
			g.Rows = append(g.Rows, l.Href)
		}
		g.Rows = append(g.Rows, si.Href)
		ret = append(ret, g)
	}
	return ret
}

// shape checks that the parts of a grid fit together.
func (g *OGrid) shape() string {
	cols := len(g.PeriodHeaders)
	if cols == 0 {
		for _, row := range g.FactualQuadrant {
			if len(row) > 0 {
				return "cells without columns"
			}
		}
		return ""
	}
	if len(g.FactualQuadrant) != len(g.Rows) {
		return fmt.Sprintf("%d rows but %d rows of cells", len(g.Rows), len(g.FactualQuadrant))
	}
	for i, row := range g.FactualQuadrant {
		if len(row) != cols {
			return fmt.Sprintf("row %d has %d cells for %d columns", i, len(row), cols)
		}
	}
	if len(g.ContextualMemberGrid) != len(g.VoidQuadrant) {
		return fmt.Sprintf("%d dimension headings but %d rows of members", len(g.VoidQuadrant), len(g.ContextualMemberGrid))
	}
	for i, row := range g.ContextualMemberGrid {
		if len(row) != cols {
			return fmt.Sprintf("member row %d has %d cells for %d columns", i, len(row), cols)
		}
	}
	return ""
}

var valueToken = regexp.MustCompile(`v\d+x`)

// exprKey identifies a value whatever the way it is displayed.
func exprKey(e OExpr) string {
	text := e.Head + e.Core + e.Tail + e.InnerHtml
	if strings.TrimSpace(text) == "" {
		return ""
	}
	if t := valueToken.FindString(text); t != "" {
		return t
	}
	if e.Core == "nil" && e.Head+e.Tail == "" {
		return "nil"
	}
	neg := strings.Contains(text, "(") || strings.Contains(text, "-")
	var digits strings.Builder
	for _, c := range text {
		if c >= '0' && c <= '9' {
			digits.WriteRune(c)
		}
	}
	d := strings.Trim(digits.String(), "0")
	if d == "" {
		return "?" + text
	}
	if neg {
		d = "-" + d
	}
	return d
}

func factKey(x *Fact) string {
	if x == nil {
		return ""
	}
	if x.Nil {
		return "nil"
	}
	return exprKey(OExpr{Core: x.inner()})
}

// cellKey is the value shown in a cell, in all the languages it is given in.
func cellKey(cell map[string]OExpr) string {
	key := exprKey(cell[langPure])
	for lang, e := range cell {
		if k := exprKey(e); k != key {
			return fmt.Sprintf("%s in %s but %s in %s", key, langPure, k, lang)
		}
	}
	return key
}

// column gives the keys of the cells of a column.
func (g *OGrid) column(j int) []string {
	var ret []string
	for i := range g.Rows {
		ret = append(ret, cellKey(g.FactualQuadrant[i][j]))
	}
	return ret
}

// relevant gives the contexts that must head the columns of a grid with these rows.
func (f *Filing) relevant(rows []string, ent Ent) []*Context {
	by := f.byHref()
	var ret []*Context
	for _, ctx := range f.Ctxs {
		if ctx.Ent != ent {
			continue
		}
		for _, href := range rows {
			if c := by[href]; c != nil && !c.Abstract && f.Fact(href, ctx.ID) != nil {
				ret = append(ret, ctx)
				break
			}
		}
	}
	return ret
}

func (f *Filing) vector(rows []string, ctx *Context) []string {
	var ret []string
	for _, href := range rows {
		ret = append(ret, factKey(f.Fact(href, ctx.ID)))
	}
	return ret
}

// heading is what a column must be headed by.
func (f *Filing) heading(ctx *Context) string {
	var parts []string
	for _, m := range ctx.Members {
		where := "segment"
		if m.Scenario {
			where = "scenario"
		}
		if m.Mem != nil {
			parts = append(parts, fmt.Sprintf("%s %s=%s", where, m.Dim.Href(), m.Mem.Href()))
		} else if len(m.Nested) > 0 {
			for _, l := range m.Nested {
				parts = append(parts, fmt.Sprintf("%s %s/%s=%q", where, m.Dim.Href(), l.C.Href(), l.Val))
			}
		} else {
			parts = append(parts, fmt.Sprintf("%s %s/%s=%q", where, m.Dim.Href(), m.Dim.Domain.Href(), m.Val))
		}
	}
	sort.Strings(parts)
	return ctx.period() + " " + strings.Join(parts, "; ")
}

// shownMembers reads the members shown for a column.
func shownMembers(void []*OVoid, grid [][]*OCell, j int) []string {
	var parts []string
	for i, v := range void {
		cell := grid[i][j]
		if cell == nil || cell.ExplicitMember == nil && cell.TypedMember == "" {
			continue
		}
		where := "segment"
		if v.IsParenthesized {
			where = "scenario"
		}
		switch {
		case v.TypedDomain != nil && cell.ExplicitMember == nil:
			parts = append(parts, fmt.Sprintf("%s %s/%s=%q", where, v.Dimension.Href, v.TypedDomain.Href, cell.TypedMember))
		case v.TypedDomain == nil && cell.ExplicitMember != nil && cell.TypedMember == "":
			parts = append(parts, fmt.Sprintf("%s %s=%s", where, v.Dimension.Href, cell.ExplicitMember.Href))
		default:
			parts = append(parts, fmt.Sprintf("%s %s: %s", where, v.Dimension.Href, toJSON(cell)))
		}
	}
	sort.Strings(parts)
	return parts
}

func (g *OGrid) heading(j int) string {
	return g.PeriodHeaders[j][langPure] + " " + strings.Join(shownMembers(g.VoidQuadrant, g.ContextualMemberGrid, j), "; ")
}

func flatLabel(l OLabel) Pack {
	ret := Pack{}
	for role, langs := range l {
		for lang, text := range langs {
			ret[role+"|"+lang] = text
		}
	}
	return ret
}

func diffPack(want, got Pack) string {
	var a, b []string
	for k, v := range want {
		a = append(a, k+"="+v)
	}
	for k, v := range got {
		b = append(b, k+"="+v)
	}
	return diffSets(a, b)
}
