package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

// Group is a list of siblings whose order among themselves carries no meaning.
type Group []interface{}

// Write puts the filing's documents into a folder of the world.
func (f *Filing) Write(dir string, lay func(doc string) *Layout) {
	must(os.MkdirAll(dir, 0755))
	put := func(name string, b []byte) { must(os.WriteFile(filepath.Join(dir, name), b, 0644)) }
	doc := func(name string, root *Node) {
		if r := f.split("cripples", name); r.Pct(30) {
			cripples(r, root)
		}
		put(name, writeXML(root, lay(name)))
	}
	b, _ := json.Marshal(map[string]string{"Entry": f.Entry, "Note": "generated"})
	put("_", b)
	for _, s := range f.Locals() {
		doc(s.Loc, schemaDoc(s))
	}
	byLoc := map[string][]*Linkbase{}
	for _, lb := range f.LBs {
		byLoc[lb.Loc] = append(byLoc[lb.Loc], lb)
	}
	for _, name := range keysOf(byLoc) {
		doc(name, f.linkbaseDoc(byLoc[name]))
	}
	doc(instanceName(f), f.instanceDoc())
	if f.Inline {
		f.Doc = f.inlineDoc(lay(f.Entry))
		put(f.Entry, f.Doc)
	}
	for name, b := range f.Images {
		put(name, b)
	}
}

func (f *Filing) WriteAny(dir string, r *Rng) {
	f.Write(dir, func(string) *Layout { return anyLayout(r) })
}

func (f *Filing) split(parts ...interface{}) *Rng {
	return newRng(append([]interface{}{"split", f.Salt}, parts...)...)
}

func schemaDoc(s *Schema) *Node {
	root := el(nsXSD, "schema", at("targetNamespace", s.NS), at("elementFormDefault", "qualified"), at("attributeFormDefault", "unqualified"))
	r := newRng("schema", s.Loc, len(s.Roles), len(s.LBs))
	var infos []*Node
	for i := 0; i <= r.Intn(3); i++ {
		infos = append(infos, el(nsXSD, "appinfo"))
		infos[i].Free = true
	}
	for _, role := range s.Roles {
		rt := el(nsLINK, "roleType", at("id", role.ID), at("roleURI", role.URI))
		if role.Title != "" || r.Pct(50) {
			rt.add(el(nsLINK, "definition", Text(role.Title)))
		}
		for _, kind := range sample(r, []string{"presentationLink", "definitionLink", "calculationLink"}, r.In(1, 3)) {
			rt.add(el(nsLINK, "usedOn", QText{nsLINK, kind}))
		}
		pick(r, infos).add(rt)
	}
	for _, lb := range s.LBs {
		pick(r, infos).add(el(nsLINK, "linkbaseRef", xl("type", "simple"), xl("arcrole", arcLinkbase), xl("role", refBase+lb.Kind+"LinkbaseRef"),
			xl("href", lb.Loc), xl("title", lb.Kind)))
	}
	var top Group
	for i := 0; i < len(infos); i++ {
		a := el(nsXSD, "annotation", infos[i])
		if i+1 < len(infos) && r.Pct(40) {
			a.add(infos[i+1])
			i++
		}
		if r.Pct(20) {
			a.add(el(nsXSD, "documentation", Text("words")))
		}
		top = append(top, a)
	}
	for _, imp := range s.Imports {
		top = append(top, el(nsXSD, "import", at("namespace", imp.NS), at("schemaLocation", imp.Loc)))
	}
	for _, inc := range s.Includes {
		top = append(top, el(nsXSD, "include", at("schemaLocation", inc.Loc)))
	}
	var elements Group
	for _, c := range s.Concepts {
		elements = append(elements, elementNode(c))
	}
	if r.Pct(30) {
		elements = append(elements, el(nsXSD, "element", at("name", "helper"), atQ("", "type", QN{nsXSD, "string"})))
		elements = append(elements, el(nsXSD, "complexType", at("name", "helperType"), el(nsXSD, "sequence", el(nsXSD, "element", at("name", "x"), at("id", "inner_x"), atQ("", "type", QN{nsXSD, "string"})))))
	}
	root.add(top, elements)
	return root
}

func elementNode(c *Concept) *Node {
	n := el(nsXSD, "element", at("id", c.ID), at("name", c.Name), atQ("", "type", c.Type))
	set := func(a Attr) { n.Attrs = append(n.Attrs, a) }
	if c.Subst.L != "" {
		set(atQ("", "substitutionGroup", c.Subst))
	}
	if c.AbsText != "" {
		set(at("abstract", c.AbsText))
	}
	if c.NilText != "" {
		set(at("nillable", c.NilText))
	}
	if c.Period != "" {
		set(atNS(nsXBRLI, "periodType", c.Period))
	}
	if c.Balance != "" {
		set(atNS(nsXBRLI, "balance", c.Balance))
	}
	// attributes of another vocabulary, called like those that are missing
	r := newRng("foreign", c.Sch.Loc, c.ID)
	const other = "http://attributes.example/other"
	if c.Balance == "" && r.Pct(15) {
		set(atNS(other, "balance", pick(r, []string{"debit", "credit"})))
	}
	if c.Period == "" && r.Pct(15) {
		set(atNS(other, "periodType", pick(r, []string{"instant", "duration"})))
	}
	if c.Domain == nil && r.Pct(10) {
		set(atNS(other, "typedDomainRef", "#"+pick(r, c.Sch.Concepts).ID))
	}
	if c.Domain != nil {
		ref := "#" + c.Domain.ID
		if c.Domain.Sch != c.Sch {
			ref = c.Domain.Sch.Loc + ref
		}
		set(atNS(nsXBRLDT, "typedDomainRef", ref))
	}
	return n
}

func roleHref(f *Filing, role *Role) string { return role.Sch.Loc + "#" + role.ID }

func loc(label, href string) *Node {
	return el(nsLINK, "loc", xl("type", "locator"), xl("label", label), xl("href", href))
}

// arcSet is one arc with its endpoints, ready to be placed into a link.
type arcSet struct {
	node         *Node
	from, to     string
	fromH, toH   string
	noExtraAttrs bool
}

// linkbaseDoc writes a file with the links of one or several kinds.
func (f *Filing) linkbaseDoc(lbs []*Linkbase) *Node {
	root := el(nsLINK, "linkbase")
	var refs, links Group
	listed := map[*Role]bool{}
	ref := func(role *Role) {
		if !listed[role] {
			listed[role] = true
			refs = append(refs, el(nsLINK, "roleRef", at("roleURI", role.URI), xl("type", "simple"), xl("href", roleHref(f, role))))
		}
	}
	for _, lb := range lbs {
		for _, role := range lb.Roles {
			ref(role)
			for _, n := range f.links(lb, role) {
				links = append(links, n)
			}
		}
		for _, l := range lb.Label {
			links = append(links, labelLinkNode(l))
		}
	}
	// and to roles it has no links of
	if r := f.split("refs", lbs[0].Loc); len(f.Roles) > 0 && r.Pct(15) {
		ref(pick(r, f.Roles))
	}
	root.add(refs, links)
	return root
}

func (f *Filing) links(lb *Linkbase, role *Role) []*Node {
	r := f.split(lb.Loc, lb.Kind, role.URI)
	var arcs []arcSet
	noise := "http://company.example/arcrole/other"
	add := func(elem string, from, to, fromH, toH, arcrole, order string, more ...Attr) {
		n := el(nsLINK, elem, xl("type", "arc"), xl("arcrole", arcrole), xl("from", from), xl("to", to), more)
		// an arc that does not say has order 1
		if num(order) != 1 || !r.Pct(15) {
			n.Attrs = append(n.Attrs, at("order", order))
		}
		if r.Pct(20) {
			n.Attrs = append(n.Attrs, at("use", "optional"), at("priority", strconv.Itoa(r.Intn(3))))
		}
		if r.Pct(10) {
			n.Attrs = append(n.Attrs, xl("title", "t"))
		}
		arcs = append(arcs, arcSet{node: n, from: from, to: to, fromH: fromH, toH: toH})
	}
	linkName := lb.Kind + "Link"
	switch lb.Kind {
	case "presentation":
		var walk func(n *PNode)
		walk = func(n *PNode) {
			for _, k := range n.Kids {
				add("presentationArc", n.Label, k.Label, n.C.Href(), k.C.Href(), arcParent, k.Order)
				if r.Pct(6) {
					add("presentationArc", k.Label, n.Label, k.C.Href(), n.C.Href(), noise, "1")
				}
				walk(k)
			}
		}
		for _, n := range role.P {
			walk(n)
		}
	case "calculation":
		for _, a := range role.C {
			add("calculationArc", a.FromLoc, a.ToLoc, a.From.Href(), a.To.Href(), arcSummation, a.Order, at("weight", a.Weight))
			if r.Pct(6) {
				add("calculationArc", a.ToLoc, a.FromLoc, a.To.Href(), a.From.Href(), noise, "1", at("weight", "1"))
			}
		}
	case "definition":
		for _, net := range role.D {
			if net.File != lb {
				continue
			}
			for _, a := range net.Arcs {
				var more []Attr
				if a.Closed != "" {
					more = append(more, atNS(nsXBRLDT, "closed", a.Closed))
				}
				if a.Usable != "" {
					more = append(more, atNS(nsXBRLDT, "usable", a.Usable))
				}
				if a.Element != "" {
					more = append(more, atNS(nsXBRLDT, "contextElement", a.Element))
				}
				if a.TargetRole != "" {
					more = append(more, atNS(nsXBRLDT, "targetRole", a.TargetRole))
				}
				add("definitionArc", net.Label[a.From], net.Label[a.To], a.From.Href(), a.To.Href(), a.Arcrole, a.Order, more...)
				if r.Pct(4) {
					add("definitionArc", net.Label[a.To], net.Label[a.From], a.To.Href(), a.From.Href(), noise, "1")
				}
			}
		}
	}
	k := 1
	if r.Pct(50) {
		k = r.In(2, 3)
	}
	parts := make([][]arcSet, k)
	for _, a := range arcs {
		i := r.Intn(k)
		parts[i] = append(parts[i], a)
	}
	var ret []*Node
	for _, part := range parts {
		if len(part) == 0 && k > 1 {
			continue
		}
		link := el(nsLINK, linkName, xl("type", "extended"), xl("role", role.URI))
		link.Free = true
		seen := map[string]bool{}
		put := func(label, href string) {
			if !seen[label] {
				seen[label] = true
				link.add(loc(label, href))
			}
		}
		for _, a := range part {
			put(a.from, a.fromH)
			put(a.to, a.toH)
			link.add(a.node)
		}
		if r.Pct(15) {
			link.add(loc("unused", role.Sch.Loc+"#none"))
		}
		ret = append(ret, link)
	}
	return ret
}

func labelLinkNode(l *LabelLinkM) *Node {
	link := el(nsLINK, "labelLink", xl("type", "extended"), xl("role", l.Role))
	link.Free = true
	for _, lc := range l.Locs {
		link.add(loc(lc.Label, lc.Href))
	}
	for i, res := range l.Res {
		link.add(el(nsLINK, "label", xl("type", "resource"), xl("label", res.Label), xl("role", res.Role), atNS(nsXML, "lang", res.Lang), at("id", fmt.Sprintf("lb%d", i)), Text(res.Text)))
	}
	for i, a := range l.Arcs {
		n := el(nsLINK, "labelArc", xl("type", "arc"), xl("arcrole", a.Arcrole), xl("from", a.From), xl("to", a.To))
		if i%2 == 0 {
			n.Attrs = append(n.Attrs, at("order", strconv.Itoa(i%3)))
		}
		link.add(n)
	}
	return link
}

func memberNode(m Member) *Node {
	if m.Mem != nil {
		return el(nsXBRLDI, "explicitMember", atQ("", "dimension", QN{m.Dim.Sch.NS, m.Dim.Name}), QText{m.Mem.Sch.NS, m.Mem.Name})
	}
	n := el(nsXBRLDI, "typedMember", atQ("", "dimension", QN{m.Dim.Sch.NS, m.Dim.Name}))
	dom := el(m.Dim.Domain.Sch.NS, m.Dim.Domain.Name)
	if len(m.Nested) > 0 {
		for _, l := range m.Nested {
			dom.add(el(l.C.Sch.NS, l.C.Name, Pad(l.Val)))
		}
	} else {
		dom.add(Pad(m.Val))
	}
	n.add(dom)
	return n
}

func contextNode(c *Context) *Node {
	entity := el(nsXBRLI, "entity", el(nsXBRLI, "identifier", at("scheme", c.Ent.Scheme), Pad(c.Ent.ID)))
	var seg, sce Group
	for _, m := range c.Members {
		if m.Scenario {
			sce = append(sce, memberNode(m))
		} else {
			seg = append(seg, memberNode(m))
		}
	}
	if len(seg) > 0 {
		entity.add(el(nsXBRLI, "segment", seg))
	}
	period := el(nsXBRLI, "period")
	if c.Start != "" {
		period.add(el(nsXBRLI, "startDate", Pad(c.Start)), el(nsXBRLI, "endDate", Pad(c.End)))
	} else if c.End != "" {
		period.add(el(nsXBRLI, "instant", Pad(c.End)))
	} else {
		period.add(el(nsXBRLI, "forever"))
	}
	n := el(nsXBRLI, "context", at("id", c.ID), entity, period)
	if len(sce) > 0 {
		n.add(el(nsXBRLI, "scenario", sce))
	}
	return n
}

func unitNode(u *Unit) *Node {
	if u.Den.L == "" {
		return el(nsXBRLI, "unit", at("id", u.ID), el(nsXBRLI, "measure", QText(u.Num)))
	}
	return el(nsXBRLI, "unit", at("id", u.ID), el(nsXBRLI, "divide",
		el(nsXBRLI, "unitNumerator", el(nsXBRLI, "measure", QText(u.Num))),
		el(nsXBRLI, "unitDenominator", el(nsXBRLI, "measure", QText(u.Den)))))
}

func factNode(x *Fact) *Node {
	n := el(x.C.Sch.NS, x.C.Name, at("contextRef", x.Ctx.ID))
	n.Tight = true
	if x.ID != "" {
		n.Attrs = append(n.Attrs, at("id", x.ID))
	}
	if x.Unit != nil {
		n.Attrs = append(n.Attrs, at("unitRef", x.Unit.ID))
	}
	if x.Dec != "" {
		n.Attrs = append(n.Attrs, at("decimals", x.Dec))
	}
	if x.Nil {
		n.Attrs = append(n.Attrs, atNS(nsXSI, "nil", x.NilText))
	} else if in := x.inner(); in != "" {
		n.add(Raw(in))
	}
	return n
}

func footLinkNode(l *FootLink) *Node {
	link := el(nsLINK, "footnoteLink", xl("type", "extended"), xl("role", roleLink))
	if l.Title != "" {
		link.Attrs = append(link.Attrs, xl("title", l.Title))
	}
	link.Free = true
	for _, lc := range l.Locs {
		link.add(loc(lc.Label, lc.Href))
	}
	for _, fn := range l.Foots {
		n := el(nsLINK, "footnote", xl("type", "resource"), xl("label", fn.Label), at("id", fn.ID), xl("role", "http://www.xbrl.org/2003/role/footnote"), atNS(nsXML, "lang", fn.Lang), Raw(fn.Text))
		n.Tight = true
		link.add(n)
	}
	for i, a := range l.Arcs {
		link.add(el(nsLINK, "footnoteArc", xl("type", "arc"), xl("arcrole", a.Arcrole), xl("from", a.From), xl("to", a.To), at("order", strconv.Itoa(i+1))))
	}
	return link
}

func (f *Filing) instanceDoc() *Node {
	root := el(nsXBRLI, "xbrl")
	var refs, body Group
	for _, s := range f.Refs {
		refs = append(refs, el(nsLINK, "schemaRef", xl("type", "simple"), xl("href", s.Loc)))
	}
	for _, c := range f.Ctxs {
		body = append(body, contextNode(c))
	}
	for _, u := range f.Units {
		body = append(body, unitNode(u))
	}
	for _, x := range f.Facts {
		body = append(body, factNode(x))
	}
	for _, l := range f.Foots {
		body = append(body, footLinkNode(l))
	}
	root.add(refs, body)
	return root
}

// inlineDoc writes the source document and notes the names facts are tagged with.
func (f *Filing) inlineDoc(lay *Layout) []byte {
	root := el(nsXHTML, "html")
	var extra []string
	for _, s := range f.Schemas {
		extra = append(extra, s.NS)
	}
	extra = append(extra, nsIX, nsLINK, nsXLINK, nsXBRLI, nsIXT)
	w, _ := newXMLWriter(root, lay, extra...)
	if w.def != "" {
		w.def = nsXHTML
	}
	name := func(c *Concept) string { return w.pref(c.Sch.NS) + ":" + c.Name }
	body := el(nsXHTML, "body")
	refs := el(nsIX, "references")
	for _, s := range f.Refs {
		refs.add(el(nsLINK, "schemaRef", xl("type", "simple"), xl("href", s.Loc)))
	}
	res := el(nsIX, "resources")
	for _, u := range f.Units {
		if u.Den.L == "" && w.prefix[u.Num.NS] != nil {
			res.add(unitNode(u))
		}
	}
	hidden := el(nsIX, "hidden")
	body.add(el(nsXHTML, "div", at("style", "display:none"), el(nsIX, "header", hidden, refs, res)))
	place := f.split("tags")
	var outer *Node
	f.TagName = map[*Fact]string{}
	seen := map[string]bool{}
	for _, x := range f.Facts {
		if !f.Tagged[x] {
			continue
		}
		f.TagName[x] = name(x.C)
		seen[f.TagName[x]] = true
		var n *Node
		if x.Unit != nil {
			n = el(nsIX, "nonFraction", at("name", f.TagName[x]), at("contextRef", x.Ctx.ID), at("unitRef", x.Unit.ID), at("decimals", x.Dec), Text("1"))
		} else {
			n = el(nsIX, "nonNumeric", at("name", f.TagName[x]), at("contextRef", x.Ctx.ID), Text("text"))
		}
		if x.ID != "" {
			n.Attrs = append(n.Attrs, at("id", x.ID))
		}
		n.Tight = true
		switch k := place.Intn(10); {
		case k == 0:
			hidden.add(n)
			continue
		case k == 1 && outer != nil:
			outer.add(n) // tagged within a text that is tagged, too
			continue
		case k == 2:
			body.add(el(nsXHTML, "div", el(nsXHTML, "table", el(nsXHTML, "tr", el(nsXHTML, "td", el(nsXHTML, "span", n))))))
		default:
			body.add(el(nsXHTML, "p", n))
		}
		if x.Unit == nil {
			outer = n
		}
	}
	for i := range f.GhostTags {
		gt := &f.GhostTags[i]
		gt.Name = name(gt.C)
		body.add(el(nsXHTML, "p", el(nsIX, "nonNumeric", at("name", gt.Name), at("contextRef", gt.Ctx), Text("ghost"))))
	}
	if f.DocBody != "" {
		body.add(Raw(f.DocBody))
	}
	root.add(el(nsXHTML, "head", el(nsXHTML, "title", Text("t"))), body)
	return w.document(root)
}
