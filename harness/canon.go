package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// The canonical form of an answer leaves out the order of what the files leave unordered.

func canonCatalog(body string) string {
	cat := &OCatalog{}
	if err := json.Unmarshal([]byte(body), cat); err != nil {
		return "not a catalog: " + body
	}
	var lines []string
	for _, s := range cat.Subjects {
		lines = append(lines, "subject "+toJSON(s))
	}
	for _, s := range cat.RelationshipSets {
		lines = append(lines, "role "+toJSON(s))
	}
	sort.Strings(lines)
	return strings.Join(append(lines, "networks "+toJSON(cat.Networks), "document "+cat.DocumentName), "\n")
}

type canonRow struct {
	text  string
	index int // of its cells
	level int
}

// canonGrid gives a canonical form of the rows and the columns of a grid.
func canonGrid(g *OGridCore, rows []canonRow) []string {
	// blocks of rows that hang together
	var blocks [][]canonRow
	for _, r := range rows {
		if r.level == 0 || len(blocks) == 0 {
			blocks = append(blocks, nil)
		}
		blocks[len(blocks)-1] = append(blocks[len(blocks)-1], r)
	}
	key := func(b []canonRow) string {
		var s []string
		for _, r := range b {
			s = append(s, fmt.Sprintf("%d %s", r.level, r.text))
		}
		return strings.Join(s, "\n")
	}
	sort.SliceStable(blocks, func(i, j int) bool { return key(blocks[i]) < key(blocks[j]) })
	var lines []string
	var order []int
	for _, b := range blocks {
		lines = append(lines, key(b))
		for _, r := range b {
			order = append(order, r.index)
		}
	}
	var cols []string
	for j := range g.PeriodHeaders {
		var members []string
		for i, v := range g.VoidQuadrant {
			if i < len(g.ContextualMemberGrid) && j < len(g.ContextualMemberGrid[i]) {
				if cell := g.ContextualMemberGrid[i][j]; cell != nil && (cell.ExplicitMember != nil || cell.TypedMember != "") {
					members = append(members, toJSON([]interface{}{v.IsParenthesized, v.Dimension, v.TypedDomain, cell}))
				}
			}
		}
		var cells []string
		for _, i := range order {
			if i < len(g.FactualQuadrant) && j < len(g.FactualQuadrant[i]) {
				text := toJSON(g.FactualQuadrant[i][j])
				if i < len(g.FootnoteGrid) && j < len(g.FootnoteGrid[i]) {
					var notes []string
					for _, n := range g.FootnoteGrid[i][j] {
						if n >= 1 && n <= len(g.Footnotes) {
							notes = append(notes, g.Footnotes[n-1])
						} else {
							notes = append(notes, fmt.Sprint("footnote ", n))
						}
					}
					text += toJSON(sorted(notes))
				}
				cells = append(cells, text)
			}
		}
		cols = append(cols, "column "+toJSON(g.PeriodHeaders[j])+" "+toJSON(sorted(members))+" "+strings.Join(cells, " | "))
	}
	sort.Strings(cols)
	lines = append(lines, cols...)
	var headings []string
	for _, v := range g.VoidQuadrant {
		headings = append(headings, "heading "+toJSON([]interface{}{v.IsParenthesized, v.Dimension, v.TypedDomain}))
	}
	lines = append(lines, sorted(headings)...)
	return append(lines, "footnotes "+toJSON(sorted(g.Footnotes)))
}

func canonNetwork(body string) string {
	n := &ONetwork{}
	if err := json.Unmarshal([]byte(body), n); err != nil {
		return "not a network: " + body
	}
	lines := []string{toJSON(n.RelationshipSet), toJSON(n.Subject), toJSON(sorted(n.Lang)), toJSON(sorted(n.LabelRoles))}
	var rows []canonRow
	for i, l := range n.PGrid.IndentedLabels {
		rows = append(rows, canonRow{toJSON([]interface{}{l.Href, l.Label}), i, l.Indentation})
	}
	lines = append(lines, "PRESENTATION")
	lines = append(lines, canonGrid(&n.PGrid.OGridCore, rows)...)
	var roots []string
	for _, rd := range n.DGrid.RootDomains {
		part := []string{"LINE ITEMS " + rd.Href + toJSON(rd.Label)}
		rows = []canonRow{{rd.Href, 0, 0}}
		for i, l := range rd.PrimaryItems {
			lv := l.Level
			if lv < 1 {
				lv = 1
			}
			rows = append(rows, canonRow{toJSON([]interface{}{l.Href, l.Label, l.Level}), i + 1, lv})
		}
		part = append(part, canonGrid(&rd.OGridCore, rows)...)
		var dims []string
		for k, d := range rd.EffectiveDimensions {
			var cells []string
			for i := range rd.EffectiveDomainGrid {
				if k < len(rd.EffectiveDomainGrid[i]) {
					var mems []string
					for _, m := range rd.EffectiveDomainGrid[i][k] {
						mems = append(mems, toJSON(m))
					}
					cells = append(cells, toJSON(sorted(mems)))
				}
			}
			dims = append(dims, "dimension "+toJSON(d)+strings.Join(cells, " | "))
		}
		part = append(part, sorted(dims)...)
		roots = append(roots, strings.Join(part, "\n"))
	}
	lines = append(lines, sorted(roots)...)
	var drs []string
	for _, d := range n.DGrid.DRS.Nodes {
		drs = append(drs, "node "+toJSON(d))
	}
	for _, d := range n.DGrid.DRS.Links {
		drs = append(drs, "link "+toJSON(d))
	}
	lines = append(lines, sorted(drs)...)
	var sums []string
	for _, s := range n.CGrid.SummationItems {
		part := []string{"CALCULATION " + s.Href + toJSON(s.Label) + s.BalanceType}
		rows = nil
		for i, cc := range s.ContributingConcepts {
			lv := 1
			if i == 0 {
				lv = 0
			}
			rows = append(rows, canonRow{toJSON(cc), i, lv})
		}
		rows = append(rows, canonRow{"total", len(rows), 1})
		part = append(part, canonGrid(&s.OGridCore, rows)...)
		sums = append(sums, strings.Join(part, "\n"))
	}
	return strings.Join(append(lines, sorted(sums)...), "\n")
}

func canonFact(body string) string {
	if strings.TrimSpace(body) == "" || body == "null" {
		return "no fact"
	}
	x := &OFact{}
	if err := json.Unmarshal([]byte(body), x); err != nil {
		return "not a fact: " + body
	}
	var members []string
	for i, v := range x.Context.VoidQuadrant {
		if i < len(x.Context.ContextualMemberGrid) {
			members = append(members, toJSON([]interface{}{v.IsParenthesized, v.Dimension, v.TypedDomain, x.Context.ContextualMemberGrid[i]}))
		}
	}
	return strings.Join([]string{x.Href, toJSON(x.Labels), toJSON(x.Context.Period), toJSON(sorted(members)), toJSON(x.Expression), toJSON(sorted(x.Footnotes))}, "\n")
}

// answers fetches every answer of a filing: what was asked for -> the answer.
func (w *World) answers(c *Case, f *Filing, facts bool) map[string]string {
	ret := map[string]string{}
	resp := w.get(folderURL(f.ID))
	if !resp.ok() {
		c.Fail("catalog of %s: %s", f.ID, resp)
		return ret
	}
	ret["catalog"] = resp.Body
	cat := &OCatalog{}
	json.Unmarshal([]byte(resp.Body), cat)
	for _, e := range keysOf(cat.Networks) {
		for _, role := range keysOf(cat.Networks[e]) {
			resp := w.get(netURL(f.ID, cat.Networks[e][role]))
			if !resp.ok() {
				c.Fail("network %s %s of %s: %s", e, role, f.ID, resp)
				return ret
			}
			ret["network "+e+" "+role] = resp.Body
		}
	}
	if facts {
		n := 0
		for _, x := range f.Facts {
			if name := f.TagName[x]; name != "" && n < 12 {
				n++
				resp := w.get(factURL(f.ID, name, x.Ctx.ID))
				if !resp.ok() {
					c.Fail("fact %s %s of %s: %s", name, x.Ctx.ID, f.ID, resp)
					return ret
				}
				ret["fact "+x.C.Href()+" "+x.Ctx.ID] = resp.Body
			}
		}
	}
	return ret
}

func canonAnswer(what, body string) string {
	switch {
	case what == "catalog":
		return canonCatalog(body)
	case strings.HasPrefix(what, "network"):
		return canonNetwork(body)
	}
	return canonFact(body)
}
