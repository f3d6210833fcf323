//go:build check_C21

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	register(&Check{ID: "C21", Level: "exploration", Quick: 3000, Thorough: 45000, Run: runC21,
		Rule:        "one context, unit, fact, footnote, locator or arc of a loaded instance; identified by its form (kind of period, number and kind of members, kind of unit, precision, nil, markup)",
		Assumptions: []string{"the white space around identifiers, dates and member names carries no meaning", "namespaces are declared on the root element"}})
}

func dimensionKeys(where string, d hydratables.DimensionContext) []string {
	var ret []string
	for _, m := range d.ExplicitMembers {
		ret = append(ret, fmt.Sprintf("%s %s=%s", where, m.Dimension.Href, m.Member.Href))
	}
	for _, m := range d.TypedMembers {
		var vals []string
		for _, k := range keysOf(m.TypedMembersMap) {
			vals = append(vals, fmt.Sprintf("%s:%q", k, m.TypedMembersMap[k]))
		}
		ret = append(ret, fmt.Sprintf("%s %s (domain %s)=%s", where, m.Dimension.Href, m.Dimension.TypedDomainHref, strings.Join(sorted(vals), ",")))
	}
	return ret
}

func wantedMembers(x *Context) []string {
	var ret []string
	for _, m := range x.Members {
		where := "segment"
		if m.Scenario {
			where = "scenario"
		}
		if m.Mem != nil {
			ret = append(ret, fmt.Sprintf("%s %s=%s", where, m.Dim.Href(), m.Mem.Href()))
			continue
		}
		var vals []string
		if len(m.Nested) == 0 {
			vals = append(vals, fmt.Sprintf("%s:%q", m.Dim.Domain.Href(), m.Val))
		}
		for _, l := range m.Nested {
			vals = append(vals, fmt.Sprintf("%s:%q", l.C.Href(), l.Val))
		}
		ret = append(ret, fmt.Sprintf("%s %s (domain %s)=%s", where, m.Dim.Href(), m.Dim.Domain.Href(), strings.Join(sorted(vals), ",")))
	}
	return ret
}

func precisionKey(p hydratables.Precision) string {
	switch p {
	case hydratables.Exact:
		return "INF"
	case hydratables.Precisionless:
		return ""
	}
	return strconv.Itoa(int(p))
}

func runC21(w *World, c *Case) {
	p := stdProf()
	p.Ctxs, p.Fill, p.Foots, p.Typed, p.Nil = [2]int{1, 14}, pick(c.Rng, []int{10, 35, 70}), [2]int{0, 5}, 50, 12
	p.Roles = [2]int{0, 1}
	f := GenFiling(c.Rng, w, w.newID(), p)
	dir := w.folder(f.ID)
	c.FilingDir = dir
	defer w.drop(f)
	r := c.Rng
	for _, x := range f.Facts {
		if x.Nil {
			continue
		}
		switch {
		case x.C.Kind == kText && r.Pct(50):
			x.Raw = pick(r, []string{"<p xmlns=\"" + nsXHTML + "\">a<b>c</b></p>", "<![CDATA[<p>x & y</p>]]>", "&lt;p&gt;a&amp;nbsp;b&lt;/p&gt;", "a<!-- c -->b", "  spaced\n out ", "<?pi x?>t"}) + x.inner()
		case x.C.Kind == kNum && r.Pct(15):
			x.Dec = pick(r, []string{"INF", "0", "-12", "12", "3", "-3", "-20", "20"})
		case x.C.Kind == kStr && r.Pct(20):
			x.Raw = pick(r, []string{" x ", "é&#233;", "a&#10;b", "\tx\n", "&quot;", "]]&gt;"})
		}
	}
	if r.Pct(40) && len(f.Facts) > 0 {
		// facts that say the same again
		ids := map[string]bool{}
		for _, x := range f.Facts {
			if x.ID != "" {
				ids[x.ID] = true
			}
		}
		for i := r.In(1, 4); i > 0; i-- {
			twin := *pick(r, f.Facts)
			twin.ID = ""
			if r.Pct(70) {
				twin.ID = ident(r, ids, func() string { return fmt.Sprintf("twin%d", r.Intn(100)) })
			}
			at := r.Intn(len(f.Facts) + 1)
			f.Facts = append(f.Facts[:at:at], append([]*Fact{&twin}, f.Facts[at:]...)...)
		}
	}
	for _, x := range f.Ctxs {
		switch {
		case r.Pct(5):
			x.Start, x.End = "", ""
		case r.Pct(5):
			x.End += "T00:00:00"
		}
	}
	f.WriteAny(dir, r)
	// things that are not well-formed items of the instance, for which nothing may be loaded
	noise := 0
	if r.Pct(40) {
		doc := f.instanceDoc()
		last := len(doc.Kids) - 1
		body := append(Group{}, doc.Kids[last].(Group)...)
		ctx := "none"
		if len(f.Ctxs) > 0 {
			ctx = pick(r, f.Ctxs).ID
		}
		s := pick(r, f.Locals())
		for i := r.In(1, 4); i > 0; i-- {
			noise++
			switch r.Intn(8) {
			case 6, 7:
				for k, n := range body {
					link, ok := n.(*Node)
					if !ok || link.Name.L != "footnoteLink" || len(link.Kids) == 0 {
						continue
					}
					cp := *link
					cp.Kids = append([]interface{}{}, link.Kids...)
					broken := *pick(r, link.Kids).(*Node)
					need := []string{"type", "label"}
					switch broken.Name.L {
					case "loc":
						need = append(need, "href")
					case "footnote":
						need = append(need, "lang")
					case "footnoteArc":
						need = []string{"type", "arcrole", "from", "to"}
					}
					broken.Attrs = without(broken.Attrs, pick(r, need))
					at := r.Intn(len(cp.Kids) + 1)
					cp.Kids = append(cp.Kids[:at:at], append([]interface{}{&broken}, cp.Kids[at:]...)...)
					body[k] = &cp
				}
			case 0:
				body = append(body, el(s.NS, "Undeclared", at("contextRef", ctx), at("id", "noise"), Raw("1")))
			case 1:
				body = append(body, el("urn:nowhere", "Undeclared", at("contextRef", ctx), Raw("2")))
			case 2:
				body = append(body, el(nsXBRLI, "context", el(nsXBRLI, "entity", el(nsXBRLI, "identifier", at("scheme", "urn:s"), Raw("1"))), el(nsXBRLI, "period", el(nsXBRLI, "instant", Raw("2020-01-01")))))
			case 3:
				body = append(body, el(nsXBRLI, "unit", el(nsXBRLI, "measure", QText{nsISO, "USD"})))
			case 4:
				if len(f.Facts) > 0 {
					x := pick(r, f.Facts)
					body = append(body, el(x.C.Sch.NS, x.C.Name, Raw("3")))
				}
			case 5:
				body = append(body, el("urn:other", "context", at("id", "noise"), el(nsXBRLI, "entity")))
			}
		}
		doc.Kids[last] = body
		must(os.WriteFile(filepath.Join(dir, instanceName(f)), writeXML(doc, anyLayout(r)), 0644))
	}
	folder, err := serializables.Discover(f.ID)
	if err != nil {
		c.Fail("the folder is not loaded: %v", err)
		return
	}
	h, err := hydratables.Hydrate(folder)
	if err != nil {
		c.Fail("the folder is not loaded: %v", err)
		return
	}
	if len(h.Instances) != 1 {
		c.Fail("%d instances are loaded", len(h.Instances))
		return
	}
	var want, got []string
	for _, ins := range h.Instances {
		for _, x := range ins.Contexts {
			period := x.Period.Instant.CharData
			if x.Period.Duration.StartDate != "" || x.Period.Duration.EndDate != "" {
				period += "|" + x.Period.Duration.StartDate + "/" + x.Period.Duration.EndDate
			}
			got = append(got, fmt.Sprintf("context %q of %q %q for %q: %v", x.ID, x.Entity.Identifier.Scheme, x.Entity.Identifier.CharData, period,
				sorted(append(dimensionKeys("segment", x.Entity.Segment), dimensionKeys("scenario", x.Scenario)...))))
		}
		for _, x := range ins.Units {
			got = append(got, fmt.Sprintf("unit %q %q / %q / %q", x.ID, x.Measure.XMLName.Space+" "+x.Measure.XMLName.Local,
				x.Divide.UnitNumerator.Measure.XMLName.Space+" "+x.Divide.UnitNumerator.Measure.XMLName.Local, x.Divide.UnitDenominator.Measure.XMLName.Space+" "+x.Divide.UnitDenominator.Measure.XMLName.Local))
		}
		for _, x := range ins.Facts {
			got = append(got, fmt.Sprintf("fact %q %s in %q unit %q precision %q nil %v: %q", x.ID, x.Href, x.ContextRef, x.UnitRef, precisionKey(x.Precision), x.IsNil, x.XMLInner))
		}
		for _, l := range ins.FootnoteLinks {
			for _, x := range l.Footnotes {
				got = append(got, fmt.Sprintf("footnote %q %q labelled %q in %q: %q", l.Title, x.ID, x.Label, x.Lang, x.InnerHtml))
			}
			for _, x := range l.Locs {
				got = append(got, fmt.Sprintf("footnote locator %q %q %q", l.Title, x.Label, x.Href))
			}
			for _, x := range l.FootnoteArcs {
				got = append(got, fmt.Sprintf("footnote arc %q %q %q", l.Title, x.From, x.To))
			}
		}
	}
	for _, x := range f.Ctxs {
		period := x.End
		if x.Start != "" {
			period = "|" + x.period()
		}
		ms := wantedMembers(x)
		want = append(want, fmt.Sprintf("context %q of %q %q for %q: %v", x.ID, x.Ent.Scheme, x.Ent.ID, period, sorted(ms)))
		c.Eval()
		kinds := ""
		for _, m := range x.Members {
			kinds += fmt.Sprint(m.Mem != nil, len(m.Nested), m.Scenario, ";")
		}
		c.Distinct("context", x.Start != "", kinds)
	}
	for _, x := range f.Units {
		if x.Den.L == "" {
			want = append(want, fmt.Sprintf("unit %q %q / %q / %q", x.ID, x.Num.NS+" "+x.Num.L, " ", " "))
		} else {
			want = append(want, fmt.Sprintf("unit %q %q / %q / %q", x.ID, " ", x.Num.NS+" "+x.Num.L, x.Den.NS+" "+x.Den.L))
		}
		c.Eval()
		c.Distinct("unit", x.Num, x.Den)
	}
	for _, x := range f.Facts {
		unit, inner := "", x.inner()
		if x.Unit != nil {
			unit = x.Unit.ID
		}
		if x.Nil {
			inner = ""
		}
		want = append(want, fmt.Sprintf("fact %q %s in %q unit %q precision %q nil %v: %q", x.ID, x.C.Href(), x.Ctx.ID, unit, x.Dec, x.Nil, inner))
		c.Eval()
		c.Distinct("fact", x.C.Kind, x.ID != "", x.Dec, x.Nil, x.Raw != "", x.Unit != nil, x.C.Sch.Global)
	}
	for _, l := range f.Foots {
		for _, x := range l.Foots {
			want = append(want, fmt.Sprintf("footnote %q %q labelled %q in %q: %q", l.Title, x.ID, x.Label, x.Lang, x.Text))
			c.Eval()
			c.Distinct("footnote", x.Lang, x.Text)
		}
		for _, x := range l.Locs {
			want = append(want, fmt.Sprintf("footnote locator %q %q %q", l.Title, x.Label, x.Href))
		}
		for _, x := range l.Arcs {
			if x.Arcrole == arcFootnote {
				want = append(want, fmt.Sprintf("footnote arc %q %q %q", l.Title, x.From, x.To))
			}
		}
	}
	if d := diffBags(want, got); d != "" {
		c.Fail("loaded items: %s", d)
		return
	}
	c.Count("items compared", len(want))
	c.Count("malformed items added", noise)
	c.Sample("%d contexts, %d units, %d facts, %d footnote links, %d malformed items", len(f.Ctxs), len(f.Units), len(f.Facts), len(f.Foots), noise)
}

// diffBags compares with multiplicity.
func diffBags(want, got []string) string {
	count := func(s []string) []string {
		n := map[string]int{}
		for _, x := range s {
			n[x]++
		}
		var ret []string
		for x, k := range n {
			if k > 1 {
				x = fmt.Sprintf("%s (%d times)", x, k)
			}
			ret = append(ret, x)
		}
		return ret
	}
	return diffSets(count(want), count(got))
}
