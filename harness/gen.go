package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Prof says what kind of filing to generate.
type Prof struct {
	Inline             int // percent
	Roles              [2]int
	P, C, D            int // percent of the roles that get such a network
	Ents               [2]int
	Ctxs               [2]int
	Members            int // percent of the contexts with members
	Typed              int // percent of the members that are typed
	Fill               int // percent of the possible facts that are reported
	Labels             int // percent of the concepts that are labelled
	Foots              [2]int
	Text               int // percent of the concepts that are text blocks
	Concepts           [2]int
	Dims               [2]int
	Wide               bool // long sibling lists, deep trees
	NumOnly            bool
	Nil                int
	Globals            int // percent of filings that use global taxonomies
	Scenario           int
	PlainXML           bool
	Images             bool
	Ghosts             bool
	NoNoise            bool
	PeriodsLikeRealOne bool
	Small              bool // never a big one
	Ties               int  // percent of the siblings with the order of the one before
	big                bool
}

// bigger gives the profile of a filing with many parts of every kind.
func (p Prof) bigger(r *Rng) Prof {
	grow := func(b *[2]int, k int) {
		if b[1] > b[0] {
			b[1] *= k
			b[0] = b[1] / 3
		}
	}
	p.big, p.Wide = true, true
	grow(&p.Ctxs, r.In(2, 5))
	grow(&p.Concepts, r.In(2, 4))
	if r.Pct(50) {
		grow(&p.Roles, r.In(1, 4))
	} else {
		grow(&p.Ents, 2)
	}
	grow(&p.Foots, r.In(1, 4))
	grow(&p.Dims, r.In(1, 3))
	if p.Fill < 100 {
		p.Fill = r.In(5, 35)
	}
	return p
}

// upTo draws from a range that is several times as long in big filings.
func (g *gen) upTo(a, b, k int) int {
	if g.p.big {
		b *= k
	}
	return g.r.In(a, b)
}

func stdProf() Prof {
	return Prof{Inline: 25, Roles: [2]int{1, 4}, P: 75, C: 55, D: 60, Ents: [2]int{1, 3}, Ctxs: [2]int{1, 9}, Members: 55, Typed: 35,
		Fill: 35, Labels: 60, Foots: [2]int{0, 3}, Text: 10, Concepts: [2]int{4, 18}, Dims: [2]int{1, 4}, Nil: 6, Globals: 50, Scenario: 35, Ghosts: true}
}

var words = []string{"Assets", "Cash", "Revenue", "Profit", "Debt", "Equity", "Cost", "Tax", "Goodwill", "Land", "Stock", "Payable", "Interest", "Segment", "Region", "Product"}

var fileStems = []string{"co-2021", "co-2021-types", "b", "aa", "report", "dim-x", "z9", "Company"}

type gen struct {
	r     *Rng
	w     *World
	p     Prof
	f     *Filing
	n     int // counter of unique values
	names map[string]map[string]bool
	mems  []*Concept
}

// GenFiling invents a filing.
func GenFiling(r *Rng, w *World, id string, p Prof) *Filing {
	g := &gen{r: r, w: w, p: p, f: &Filing{ID: id, Salt: r.Int()}, names: map[string]map[string]bool{}}
	if !p.Small && r.Intn(80) == 0 {
		g.p = p.bigger(r)
	}
	g.n = 10 + r.Intn(90)
	g.f.Inline = r.Pct(p.Inline)
	stem := pick(r, []string{"inst", "a-20211231", "x", "form10k", "data"})
	if g.f.Inline {
		g.f.Entry = stem + pick(r, []string{".htm", ".xhtml"})
	} else {
		g.f.Entry = stem + pick(r, []string{".xml", ".xbrl", ".xml"})
	}
	g.schemas()
	g.ents()
	g.contexts()
	g.units()
	g.facts()
	g.roles()
	g.labels()
	g.footnotes()
	g.inline()
	return g.f
}

// near gives an identifier that is easily mistaken for another one.
func near(r *Rng, id string) string {
	switch r.Intn(6) {
	case 0:
		if up := strings.ToUpper(id); up != id {
			return up
		}
		return strings.ToLower(id)
	case 1:
		return swapCase(id, r.Intn(len(id)))
	case 2:
		return id + pick(r, []string{"0", "_", "-", ".", "x", "é"})
	case 3:
		return "_" + id
	case 4:
		if len(id) > 1 {
			return id[:len(id)-1]
		}
	}
	return pick(r, []string{"a.", "x-", "Z_"}) + id
}

func swapCase(s string, i int) string {
	c := s[i : i+1]
	if up := strings.ToUpper(c); up != c {
		return s[:i] + up + s[i+1:]
	}
	return s[:i] + strings.ToLower(c) + s[i+1:]
}

// ident gives an identifier that is not taken yet, often close to one that is.
func ident(r *Rng, taken map[string]bool, fresh func() string) string {
	for {
		id := fresh()
		if r.Pct(4) {
			id = pick(r, []string{"a", "Z", "_", "é"})
		}
		if r.Pct(1) {
			id += strings.Repeat("-long", r.In(20, 80))
		}
		if len(taken) > 0 && r.Pct(25) {
			id = near(r, pick(r, keysOf(taken)))
		}
		if !taken[id] && utf8.ValidString(id) {
			taken[id] = true
			return id
		}
	}
}

func (g *gen) next() int {
	g.n += 1 + g.r.Intn(3)
	if g.n%10 == 0 {
		g.n++
	}
	return g.n
}

func (g *gen) schemas() {
	r := g.r
	stems := sample(r, fileStems, len(fileStems))
	si := 0
	stem := func() string { si++; return stems[si-1] + ".xsd" }
	nNS := r.In(1, 3)
	var mains []*Schema
	for i := 0; i < nNS; i++ {
		ns := fmt.Sprintf("http://company%d.example/20%02d", i, 20+r.Intn(3))
		if r.Pct(15) {
			ns = fmt.Sprintf("urn:company:%d", i)
		}
		main := &Schema{Loc: stem(), NS: ns}
		mains = append(mains, main)
		g.f.Schemas = append(g.f.Schemas, main)
		last := main
		for k := r.Intn(3); k > 0 && si < len(stems)-3; k-- {
			inc := &Schema{Loc: stem(), NS: ns}
			if r.Pct(50) {
				last.Includes = append(last.Includes, inc)
			} else {
				main.Includes = append(main.Includes, inc)
			}
			if r.Pct(20) {
				inc.Includes = append(inc.Includes, main)
			}
			g.f.Schemas = append(g.f.Schemas, inc)
			last = inc
		}
	}
	g.f.Refs = []*Schema{mains[0]}
	for i, m := range mains[1:] {
		switch r.Intn(4) {
		case 0:
			g.f.Refs = append(g.f.Refs, m)
		case 1:
			mains[i].Imports = append(mains[i].Imports, m)
		case 2:
			mains[0].Imports = append(mains[0].Imports, m)
		default:
			from := pick(r, g.f.Locals())
			for from.NS == m.NS {
				from = mains[0]
			}
			// only if reachable without m
			ok := from.NS == mains[0].NS
			if !ok {
				from = mains[0]
			}
			from.Imports = append(from.Imports, m)
			if r.Pct(30) {
				m.Imports = append(m.Imports, mains[0])
			}
		}
	}
	if r.Pct(g.p.Globals) && len(g.w.Globals) > 0 {
		for _, gs := range sample(r, g.w.Globals, r.In(1, 2)) {
			from := pick(r, g.f.Locals())
			from.Imports = append(from.Imports, gs)
			g.f.Schemas = append(g.f.Schemas, gs)
		}
	}
	locals := g.f.Locals()
	n := r.In(g.p.Concepts[0], g.p.Concepts[1])
	for i := 0; i < n; i++ {
		g.concept(pick(r, locals), -1)
	}
	for i := g.upTo(1, 4, 4); i > 0; i-- {
		g.concept(pick(r, locals), kAbstract)
	}
	for i := r.In(g.p.Dims[0], g.p.Dims[1]); i > 0; i-- {
		if r.Pct(g.p.Typed) {
			g.typedDim(pick(r, locals), locals)
		} else {
			g.concept(pick(r, locals), kDim)
		}
	}
	for i := g.upTo(2, 8, 5); i > 0; i-- {
		g.concept(pick(r, locals), kMember)
	}
	for i := g.upTo(1, 3, 3); i > 0; i-- {
		g.concept(pick(r, locals), kHypercube)
	}
	for _, c := range g.f.Concepts() {
		switch c.Kind {
		case kDim, kTypedDim:
			g.f.Dims = append(g.f.Dims, c)
		case kMember:
			g.mems = append(g.mems, c)
		}
	}
}

func (g *gen) typedDim(s *Schema, locals []*Schema) {
	r := g.r
	var shared []*Concept
	for _, l := range locals {
		for _, c := range l.Concepts {
			if c.Kind == kTypedDim {
				shared = append(shared, c.Domain)
			}
		}
	}
	if len(shared) > 0 && r.Pct(35) {
		// two dimensions with one domain
		d := g.concept(s, kTypedDim)
		d.Domain = pick(r, shared)
		return
	}
	dom := g.concept(s, kTypedDom)
	if r.Pct(30) {
		dom = g.concept(pick(r, locals), kTypedDom)
	}
	if r.Pct(30) {
		for i := r.In(1, 3); i > 0; i-- {
			dom.Leaves = append(dom.Leaves, g.concept(pick(r, locals), kTypedDom))
		}
	}
	d := g.concept(s, kTypedDim)
	d.Domain = dom
}

func (g *gen) concept(s *Schema, kind Kind) *Concept {
	r := g.r
	c := newConcept(r, s, kind, g.p, g.names)
	return c
}

func newConcept(r *Rng, s *Schema, kind Kind, p Prof, names map[string]map[string]bool) *Concept {
	c := &Concept{Sch: s}
	if names[s.NS] == nil {
		names[s.NS] = map[string]bool{}
	}
	suffix := map[Kind]string{kAbstract: "Abstract", kHypercube: "Table", kDim: "Axis", kTypedDim: "Axis", kMember: "Member", kTypedDom: "Type"}[kind]
	for i := 0; ; i++ {
		c.Name = pick(r, words)
		if r.Pct(40) || i > 5 {
			c.Name += pick(r, words)
		}
		if i > 10 {
			c.Name += strconv.Itoa(r.Intn(1000))
		}
		c.Name += suffix
		if r.Pct(2) {
			c.Name = pick(r, []string{"A", "z", "_", "Ñ"})
		}
		if len(names[s.NS]) > 0 && r.Pct(8) {
			c.Name = near(r, pick(r, keysOf(names[s.NS])))
		}
		if !names[s.NS][c.Name] && utf8.ValidString(c.Name) {
			break
		}
	}
	names[s.NS][c.Name] = true
	ids := map[string]bool{}
	for _, o := range s.Concepts {
		ids[o.ID] = true
	}
	for {
		c.ID = pick(r, []string{"co_", "x_", "", "co-ext_"}) + c.Name
		if r.Pct(15) {
			c.ID += "." + strconv.Itoa(r.Intn(10))
		}
		if len(ids) > 0 && r.Pct(8) {
			c.ID = near(r, pick(r, keysOf(ids)))
		}
		if !ids[c.ID] && utf8.ValidString(c.ID) {
			break
		}
	}
	if kind < 0 {
		switch {
		case r.Pct(p.Text):
			kind = kText
		case p.NumOnly && r.Pct(25):
			kind = kPct
		case p.NumOnly || r.Pct(60):
			kind = kNum
		case r.Pct(30):
			kind = kPct
		default:
			kind = kStr
		}
	}
	c.Kind = kind
	c.Period = pick(r, []string{"instant", "duration"})
	c.Subst = QN{nsXBRLI, "item"}
	switch kind {
	case kNum:
		c.Type = pick(r, []QN{{nsXBRLI, "monetaryItemType"}, {nsXBRLI, "monetaryItemType"}, {nsXBRLI, "sharesItemType"}, {nsXBRLI, "decimalItemType"}, {nsNUM, "perShareItemType"}})
		if r.Pct(15) {
			c.Type = pick(r, []QN{{"http://types.example/2020", "percentItemType"}, {nsNUM, "PercentItemType"}, {nsNUM, "percent"}})
		}
		c.Balance = pick(r, []string{"", "debit", "credit"})
	case kPct:
		c.Type = QN{nsNUM, "percentItemType"}
	case kStr:
		c.Type = pick(r, []QN{{nsXBRLI, "stringItemType"}, {nsXBRLI, "normalizedStringItemType"}, {nsNONNUM, "domainItemType"}})
	case kText:
		c.Type = pick(r, []QN{{nsNONNUM, "textBlockItemType"}, {"http://types.example/2020", "textBlockItemType"}})
	case kAbstract:
		c.Type = QN{nsXBRLI, "stringItemType"}
		c.Abstract = true
	case kHypercube:
		c.Type = QN{nsXBRLI, "stringItemType"}
		c.Abstract = true
		c.Subst = QN{nsXBRLDT, "hypercubeItem"}
	case kDim, kTypedDim:
		c.Type = QN{nsXBRLI, "stringItemType"}
		c.Abstract = true
		c.Subst = QN{nsXBRLDT, "dimensionItem"}
	case kMember:
		c.Type = QN{nsNONNUM, "domainItemType"}
		c.Abstract = true
	case kTypedDom:
		c.Type = QN{nsXSD, "string"}
		c.Subst = QN{}
		c.Period = ""
	}
	c.Nillable = r.Pct(60)
	boolText := func(v bool) string {
		if v {
			return pick(r, []string{"true", "true", "1"})
		}
		return pick(r, []string{"false", "0", "", ""})
	}
	c.AbsText, c.NilText = boolText(c.Abstract), boolText(c.Nillable)
	s.Concepts = append(s.Concepts, c)
	return c
}

func (g *gen) ents() {
	r := g.r
	g.f.Ents = sample(r, g.w.Ents, r.In(g.p.Ents[0], g.p.Ents[1]))
	if len(g.f.Ents) > 1 && r.Pct(40) {
		// entities of one scheme whose identifiers begin alike
		var alike [][2]Ent
		for _, a := range g.w.Ents {
			for _, b := range g.w.Ents {
				if a.Scheme == b.Scheme && a.ID != b.ID && strings.HasPrefix(b.ID, a.ID) {
					alike = append(alike, [2]Ent{a, b})
				}
			}
		}
		pair := pick(r, alike)
		ents := pair[:]
		for _, e := range g.f.Ents[2:] {
			if e != pair[0] && e != pair[1] {
				ents = append(ents, e)
			}
		}
		g.f.Ents = append([]Ent{}, ents...)
		shuffle(r, g.f.Ents)
	}
}

func date(t time.Time) string { return t.Format("2006-01-02") }

func (g *gen) period(c *Context) {
	r := g.r
	end := time.Date(2019+r.Intn(3), time.Month(1+r.Intn(12)), 1+r.Intn(28), 0, 0, 0, 0, time.UTC)
	if r.Pct(60) {
		end = time.Date(2020, time.Month(pick(r, []int{3, 6, 9, 12})), 30, 0, 0, 0, 0, time.UTC)
	}
	if r.Pct(4) {
		return // forever
	}
	c.End = date(end)
	if r.Pct(55) {
		c.Start = date(end.AddDate(0, -pick(r, []int{1, 3, 6, 9, 12, 24}), pick(r, []int{0, 0, 1, -2})))
		if r.Pct(8) {
			c.Start = c.End // a single day
		}
	}
}

func (g *gen) contexts() {
	r := g.r
	ids := map[string]bool{}
	n := r.In(g.p.Ctxs[0], g.p.Ctxs[1])
	for i := 0; i < n; i++ {
		c := &Context{Ent: pick(r, g.f.Ents)}
		c.ID = ident(r, ids, func() string {
			return pick(r, []string{"c", "C-", "ctx_", "i", "FD2020"}) + strconv.Itoa(r.Intn(40))
		})
		if len(g.f.Ctxs) > 0 && r.Pct(55) {
			o := pick(r, g.f.Ctxs)
			c.Start, c.End = o.Start, o.End
			if r.Pct(25) {
				c.Members = append([]Member{}, o.Members...)
			}
			if r.Pct(50) {
				c.Ent = o.Ent
			}
		} else {
			g.period(c)
		}
		if len(c.Members) == 0 && r.Pct(g.p.Members) {
			g.members(c)
		}
		g.f.Ctxs = append(g.f.Ctxs, c)
	}
}

func (g *gen) members(c *Context) {
	r := g.r
	for _, d := range sample(r, g.f.Dims, g.upTo(1, 3, 4)) {
		m := Member{Dim: d, Scenario: r.Pct(g.p.Scenario)}
		if d.Kind == kTypedDim {
			if leaves := d.Domain.Leaves; len(leaves) > 0 {
				for _, l := range sample(r, leaves, r.In(1, len(leaves))) {
					m.Nested = append(m.Nested, TypedLeaf{l, fmt.Sprintf("t%d", g.next())})
				}
			} else {
				m.Val = fmt.Sprintf("t%d", r.Intn(5))
				if r.Pct(20) {
					m.Val = pick(r, []string{"A & B", "0042", "x < y", "2020-01-01", "ñandú", "a  b"})
				}
			}
		} else {
			if len(g.mems) == 0 {
				continue
			}
			m.Mem = pick(r, g.mems)
		}
		c.Members = append(c.Members, m)
	}
}

func (g *gen) units() {
	r := g.r
	n := g.upTo(1, 5, 5)
	ids := map[string]bool{}
	for i := 0; i < n; i++ {
		u := &Unit{ID: ident(r, ids, func() string {
			return pick(r, []string{"usd", "U", "shares", "u-", "per"}) + strconv.Itoa(r.Intn(30))
		})}
		u.Num = g.measure()
		if r.Pct(30) {
			u.Den = g.measure()
		}
		g.f.Units = append(g.f.Units, u)
	}
}

func (g *gen) measure() QN {
	r := g.r
	if r.Pct(12) {
		return QN{"http://units.example/unregistered", pick(r, []string{"USD", "parsec", "shares"})}
	}
	e := pick(r, g.w.UTR)
	return QN{e.NS, e.ID}
}

func (g *gen) facts() {
	r := g.r
	f := g.f
	f.Tagged = map[*Fact]bool{}
	n := 0
	ids := map[string]bool{}
	for _, c := range f.Concepts() {
		if !c.reportable() {
			continue
		}
		fill := g.p.Fill
		if r.Pct(15) {
			fill = 0
		}
		for _, ctx := range f.Ctxs {
			if !r.Pct(fill) {
				continue
			}
			n++
			x := &Fact{C: c, Ctx: ctx}
			if r.Pct(80) {
				x.ID = ident(r, ids, func() string { return fmt.Sprintf("f%d", n) })
			}
			g.value(x)
			f.Facts = append(f.Facts, x)
		}
	}
	shuffle(r, f.Facts)
}

func (g *gen) value(x *Fact) {
	r := g.r
	if r.Pct(g.p.Nil) {
		x.Nil = true
		x.NilText = pick(r, []string{"true", "true", "1"})
		return
	}
	n := g.next()
	switch x.C.Kind {
	case kNum:
		s := strconv.Itoa(n)
		x.Dec = pick(r, []string{"0", "-3", "-6", "INF", "2", "1"})
		if r.Pct(25) && len(s) > 2 {
			s = s[:len(s)-2] + "." + s[len(s)-2:]
			x.Dec = pick(r, []string{"2", "INF", "3"})
		} else if r.Pct(30) {
			s += strings.Repeat("0", r.Intn(7))
		}
		if r.Pct(25) {
			s = "-" + s
		}
		x.Value = s
		x.Unit = pick(r, g.f.Units)
	case kPct:
		s := strconv.Itoa(n)
		for len(s) < 4 {
			s = "0" + s
		}
		s = strings.TrimLeft(s[:len(s)-4]+".", "") + s[len(s)-4:]
		if strings.HasPrefix(s, ".") {
			s = "0" + s
		}
		if r.Pct(20) {
			s = "-" + s
		}
		x.Value = s
		x.Dec = pick(r, []string{"4", "INF", "5"})
		x.Unit = pick(r, g.f.Units)
	case kStr:
		x.Value = fmt.Sprintf("v%dx", n) + pick(r, []string{"", "", " & more", " <i>", " ünï", "\" '"})
	case kText:
		tok := fmt.Sprintf("v%dx", n)
		switch r.Intn(3) {
		case 0:
			x.Value = "<div><p>" + tok + "</p></div>"
		case 1:
			x.Value = "<table><tr><td>" + tok + "</td><td>b</td></tr></table>"
		default:
			x.Raw = "<![CDATA[<p>" + tok + "</p>]]>"
		}
	}
}

// orders gives n distinct order values in ascending order, written in various ways.
func (g *gen) orders(n int) []string {
	r := g.r
	var ret []string
	v := float64(r.Intn(4)) - 1
	if r.Pct(10) {
		v += pick(r, []float64{100, 10110, 1e6, 123456789})
	}
	step := pick(r, []float64{1, 1, 1, 0.5, 10, 0.01})
	for i := 0; i < n; i++ {
		var s string
		switch r.Intn(4) {
		case 0:
			s = strconv.FormatFloat(v, 'f', 2, 64)
		case 1:
			s = strconv.FormatFloat(v, 'f', 4, 64)
		default:
			s = strconv.FormatFloat(v, 'f', -1, 64)
		}
		ret = append(ret, s)
		if r.Pct(g.p.Ties) {
			continue
		}
		v += step * float64(1+r.Intn(3))
	}
	return ret
}

func (g *gen) lbs(kind string, n int) []*Linkbase {
	var ret []*Linkbase
	suffix := map[string]string{"presentation": "pre", "calculation": "cal", "definition": "def", "label": "lab"}[kind]
	for i := 0; i < n; i++ {
		lb := &Linkbase{Kind: kind, Loc: fmt.Sprintf("%s_%s%d.xml", pick(g.r, []string{"co", "x", "z-1"}), suffix, i)}
		if len(g.f.LBs) > 0 && g.r.Pct(12) {
			// in a file with links of another kind
			lb.Loc = pick(g.r, g.f.LBs).Loc
			for _, x := range g.f.LBs {
				if x.Loc == lb.Loc && x.Kind == kind {
					lb.Loc = fmt.Sprintf("%s%d.xml", suffix, i)
				}
			}
		}
		ret = append(ret, lb)
		g.f.LBs = append(g.f.LBs, lb)
		s := pick(g.r, g.f.Locals())
		s.LBs = append(s.LBs, lb)
	}
	return ret
}

func (g *gen) roles() {
	r := g.r
	f := g.f
	pres, cals, defs := g.lbs("presentation", r.In(1, 2)), g.lbs("calculation", r.In(1, 2)), g.lbs("definition", r.In(1, 3))
	n := r.In(g.p.Roles[0], g.p.Roles[1])
	for i := 0; i < n; i++ {
		role := &Role{ID: fmt.Sprintf("r%d", i), Sch: pick(r, f.Locals())}
		role.URI = "http://company.example/role/" + pick(r, words) + strconv.Itoa(i)
		if r.Pct(30) && i > 0 {
			role.URI = f.Roles[i-1].URI + pick(r, []string{"X", "/sub", "-2", "a"})
		}
		role.Title = fmt.Sprintf("%02d - %s - %s", r.Intn(30), pick(r, []string{"Statement", "Disclosure"}), pick(r, words))
		if r.Pct(20) && i > 0 {
			role.Title = f.Roles[i-1].Title
		} else if r.Pct(6) {
			role.Title = ""
		}
		role.Sch.Roles = append(role.Sch.Roles, role)
		f.Roles = append(f.Roles, role)
		if r.Pct(g.p.P) {
			role.PFile = pick(r, pres)
			g.presentation(role)
		}
		if r.Pct(g.p.C) {
			role.CFile = pick(r, cals)
			g.calculation(role)
		}
		if r.Pct(g.p.D) {
			for _, lb := range sample(r, defs, r.In(1, 2)) {
				g.definition(role, lb)
			}
		}
	}
}

func (g *gen) presentation(role *Role) {
	r := g.r
	var pool []*Concept
	for _, c := range g.f.Concepts() {
		if c.Kind != kTypedDom {
			pool = append(pool, c)
		}
	}
	n := r.In(2, 14)
	if g.p.Wide {
		n = g.upTo(4, 40, 3)
	}
	deep := 30
	if g.p.big {
		deep = pick(r, []int{30, 60, 95})
	}
	loc := 0
	labels := map[string]bool{}
	label := func() string {
		loc++
		return ident(r, labels, func() string { loc++; return fmt.Sprintf("loc_%d", loc) })
	}
	var all []*PNode
	var parents []*PNode
	for i := r.In(1, 3); i > 0; i-- {
		root := &PNode{C: pick(r, pool), Label: label()}
		role.P = append(role.P, root)
		all = append(all, root)
		parents = append(parents, root)
	}
	kids := map[*PNode]map[string]bool{}
	var leaves []*PNode
	for i := 0; i < n; i++ {
		parent := pick(r, parents)
		if r.Pct(deep) {
			parent = parents[len(parents)-1]
		}
		if kids[parent] == nil {
			kids[parent] = map[string]bool{}
		}
		if len(leaves) > 0 && r.Pct(12) {
			// the same locator under a second parent; such nodes stay leaves
			l := pick(r, leaves)
			if !kids[parent][l.Label] {
				kids[parent][l.Label] = true
				parent.Kids = append(parent.Kids, &PNode{C: l.C, Label: l.Label})
			}
			continue
		}
		c := pick(r, pool)
		if len(all) > 2 && r.Pct(15) {
			c = pick(r, all).C // a concept shown at two places
		}
		node := &PNode{C: c, Label: label()}
		kids[parent][node.Label] = true
		parent.Kids = append(parent.Kids, node)
		all = append(all, node)
		if r.Pct(45) {
			parents = append(parents, node)
		} else {
			leaves = append(leaves, node)
		}
	}
	// a root without children would not be part of the network
	for _, root := range role.P {
		if len(root.Kids) == 0 {
			node := &PNode{C: pick(r, pool), Label: label()}
			root.Kids = append(root.Kids, node)
			all = append(all, node)
		}
	}
	for _, p := range all {
		shuffle(r, p.Kids)
		for i, o := range g.orders(len(p.Kids)) {
			p.Kids[i].Order = o
		}
	}
	role.PFile.Roles = append(role.PFile.Roles, role)
}

func (g *gen) calculation(role *Role) {
	r := g.r
	var pool []*Concept
	for _, c := range g.f.Concepts() {
		if c.Kind == kNum || c.Kind == kPct {
			pool = append(pool, c)
		}
	}
	if len(pool) < 2 {
		role.CFile = nil
		return
	}
	pool = sample(r, pool, g.upTo(2, 10, 6))
	label := map[*Concept]string{}
	labels := map[string]bool{}
	for i, c := range pool {
		label[c] = ident(r, labels, func() string { i++; return fmt.Sprintf("loc_%d", i) })
	}
	arcs := map[[2]*Concept]bool{}
	sums := g.upTo(1, 4, 5)
	for i := 0; i < sums && i < len(pool)-1; i++ {
		rest := pool[i+1:]
		kids := sample(r, rest, g.upTo(1, 6, 4))
		ord := g.orders(len(kids))
		for k, to := range kids {
			from := pool[i]
			if arcs[[2]*Concept{from, to}] {
				continue
			}
			arcs[[2]*Concept{from, to}] = true
			w := pick(r, []string{"1", "-1", "1.0", "-1.0", "0.5", "-0.5", "2", "-2.5", "1.00", "0.25", "-0.125", "100", "-0.001"})
			role.C = append(role.C, &CArc{From: from, To: to, FromLoc: label[from], ToLoc: label[to], Order: ord[k], Weight: w})
		}
	}
	shuffle(r, role.C)
	role.CFile.Roles = append(role.CFile.Roles, role)
}

// definition invents the dimensional network of a role in one file.
func (g *gen) definition(role *Role, lb *Linkbase) {
	r := g.r
	net := &DNet{File: lb, Label: map[*Concept]string{}}
	used := map[*Concept]bool{}
	take := func(want func(c *Concept) bool) *Concept {
		var pool []*Concept
		for _, c := range g.f.Concepts() {
			if !used[c] && want(c) {
				pool = append(pool, c)
			}
		}
		if len(pool) == 0 {
			return nil
		}
		c := pick(r, pool)
		used[c] = true
		return c
	}
	isItem := func(c *Concept) bool { return c.reportable() || c.Kind == kAbstract }
	// dimensions with their domains
	type dimension struct {
		c *Concept
	}
	var dims []dimension
	parted := map[[2]*Concept]bool{}
	tree := func(root *Concept, want func(*Concept) bool, n int) []*Concept {
		nodes := []*Concept{root}
		kids := map[*Concept][]*Concept{}
		for i := 0; i < n; i++ {
			c := take(want)
			if c == nil {
				break
			}
			p := pick(r, nodes)
			kids[p] = append(kids[p], c)
			nodes = append(nodes, c)
		}
		// one below a second parent: a member with all that is below it, a line item
		// only if nothing is
		for r.Pct(12) && len(nodes) > 2 {
			i := r.In(1, len(nodes)-1)
			p, c := nodes[r.Intn(i)], nodes[i]
			has := root.Kind != kMember && (len(kids[p]) == 0 || len(kids[c]) > 0)
			for _, k := range kids[p] {
				has = has || k == c
			}
			if !has {
				kids[p] = append(kids[p], c)
			}
		}
		for _, p := range nodes {
			ord := g.orders(len(kids[p]))
			for i, c := range kids[p] {
				parted[[2]*Concept{p, c}] = true
				net.Arcs = append(net.Arcs, &DArc{From: p, To: c, Arcrole: arcDomMem, Order: ord[i], Usable: pick(r, []string{"", "", "true", "false"})})
			}
		}
		return nodes
	}
	isMember := func(c *Concept) bool { return c.Kind == kMember }
	var domains, domainMembers []*Concept
	for i := g.upTo(0, 4, 3); i > 0; i-- {
		d := take(func(c *Concept) bool { return c.Kind == kDim || c.Kind == kTypedDim })
		if d == nil {
			break
		}
		dims = append(dims, dimension{d})
		if d.Kind == kTypedDim {
			continue
		}
		var members []*Concept
		for k := r.In(0, 1+r.Intn(2)); k > 0; k-- {
			var dom *Concept
			shared := false
			switch {
			case len(domains) > 0 && r.Pct(12):
				dom, shared = pick(r, domains), true // of another dimension
			case len(domainMembers) > 0 && r.Pct(12):
				dom, shared = pick(r, domainMembers), true // part of another one's
			default:
				dom = take(isMember)
			}
			if dom == nil {
				break
			}
			if parted[[2]*Concept{d, dom}] {
				continue
			}
			parted[[2]*Concept{d, dom}] = true
			net.Arcs = append(net.Arcs, &DArc{From: d, To: dom, Arcrole: arcDimDom, Order: strconv.Itoa(k), Usable: pick(r, []string{"", "true", "false", "0"})})
			if shared {
				members = append(members, dom)
				continue
			}
			domains = append(domains, dom)
			below := tree(dom, isMember, g.upTo(0, 3, 4))
			members = append(members, below...)
			domainMembers = append(domainMembers, below[1:]...)
		}
		if r.Pct(50) {
			var def *Concept
			if len(members) > 0 && r.Pct(85) {
				def = pick(r, members)
			} else if len(members) == 0 {
				def = take(isMember)
			}
			if def != nil {
				net.Arcs = append(net.Arcs, &DArc{From: d, To: def, Arcrole: arcDimDef, Order: "1"})
			}
		}
	}
	// hypercubes
	type hypercube struct {
		c    *Concept
		dims map[*Concept]bool
	}
	var cubes []hypercube
	for i := g.upTo(0, 3, 3); i > 0 && len(dims) > 0; i-- {
		h := take(func(c *Concept) bool { return c.Kind == kHypercube })
		if h == nil {
			break
		}
		cube := hypercube{h, map[*Concept]bool{}}
		picked := sample(r, dims, r.In(1, len(dims)))
		ord := g.orders(len(picked))
		for k, d := range picked {
			cube.dims[d.c] = true
			net.Arcs = append(net.Arcs, &DArc{From: h, To: d.c, Arcrole: arcHcDim, Order: ord[k]})
		}
		cubes = append(cubes, cube)
	}
	// line items
	for i := g.upTo(1, 3, 2); i > 0; i-- {
		root := take(isItem)
		if root == nil {
			break
		}
		n := g.upTo(1, 6, 5)
		items := tree(root, isItem, n)
		if len(items) < 2 {
			// not part of any tree
			continue
		}
		for _, item := range items {
			if !r.Pct(35) || len(cubes) == 0 {
				continue
			}
			taken := map[*Concept]string{}
			for _, cube := range sample(r, cubes, g.upTo(1, 2, 3)) {
				arcrole := pick(r, []string{arcAll, arcAll, arcNotAll})
				overlap := false
				for d := range cube.dims {
					overlap = overlap || taken[d] != "" && taken[d] != arcrole
				}
				if overlap {
					continue
				}
				for d := range cube.dims {
					taken[d] = arcrole
				}
				net.Arcs = append(net.Arcs, &DArc{From: item, To: cube.c, Arcrole: arcrole,
					Order: "1", Closed: pick(r, []string{"", "true", "false", "1", "0"}), Element: pick(r, []string{"segment", "scenario"})})
			}
		}
	}
	if len(net.Arcs) == 0 {
		return
	}
	for _, a := range net.Arcs {
		if a.Arcrole == arcDimDom && r.Pct(10) || a.Arcrole == arcHcDim && r.Pct(5) {
			a.TargetRole = pick(r, g.f.Roles).URI
		}
	}
	i := 0
	labels := map[string]bool{}
	for _, a := range net.Arcs {
		for _, c := range []*Concept{a.From, a.To} {
			if net.Label[c] == "" {
				net.Label[c] = ident(r, labels, func() string { i++; return fmt.Sprintf("loc_%d", i) })
			}
		}
	}
	shuffle(r, net.Arcs)
	role.D = append(role.D, net)
	has := false
	for _, x := range lb.Roles {
		has = has || x == role
	}
	if !has {
		lb.Roles = append(lb.Roles, role)
	}
}

func (g *gen) labels() {
	r := g.r
	lbs := g.lbs("label", r.In(1, 3))
	for _, lb := range lbs {
		for i := r.In(1, 2); i > 0; i-- {
			lb.Label = append(lb.Label, &LabelLinkM{Role: pick(r, []string{roleLink, roleLink, "http://company.example/role/labels"})})
		}
	}
	type key struct{ href, role, lang string }
	taken := map[key]bool{}
	langs := []string{"en-US", "en", "es", "en-US", "fr", "de", "en-GB", "es-MX"}
	roles := []string{roleLabel, roleLabel, roleTerse, roleVerbose, roleTotal, roleDoc}
	n := 0
	for _, c := range g.f.Concepts() {
		if !r.Pct(g.p.Labels) {
			continue
		}
		for k := r.In(1, 3); k > 0; k-- {
			lb := pick(r, lbs)
			link := pick(r, lb.Label)
			// a locator of the concept, reused when there is one
			loc := ""
			for _, l := range link.Locs {
				if l.Href == c.Href() && r.Pct(70) {
					loc = l.Label
				}
			}
			if loc == "" {
				loc = fmt.Sprintf("loc_%d", len(link.Locs)+1)
				link.Locs = append(link.Locs, LocM{loc, c.Href()})
			}
			// resources under one label
			resLabel := fmt.Sprintf("lab_%d", len(link.Res)+1)
			any := false
			for m := r.In(1, 3); m > 0; m-- {
				lang, role := pick(r, langs), pick(r, roles)
				cls := lang
				if shownLang(lang) != "" {
					cls = shownLang(lang)
				}
				kk := key{c.Href(), role, cls}
				if taken[kk] {
					continue
				}
				taken[kk] = true
				n++
				text := fmt.Sprintf("%s %d", pick(r, words), n)
				if r.Pct(15) {
					text += pick(r, []string{" & Co", " <net>", " año", "  two  spaces", " \"q\"", "\nline two", "\n\n and, after a gap, three", "\tend"})
				}
				link.Res = append(link.Res, LabelRes{resLabel, role, lang, text})
				any = true
			}
			if any {
				link.Arcs = append(link.Arcs, LabelArcM{loc, resLabel, arcLabel})
			}
			if r.Pct(15) {
				link.Arcs = append(link.Arcs, LabelArcM{loc, pick(r, []string{resLabel, "lab_1"}), arcReference})
			}
		}
	}
	// shared resources: a second concept pointing to the same resource
	for _, lb := range lbs {
		for _, link := range lb.Label {
			for i := 0; i < 2; i++ {
				if len(link.Res) == 0 || len(link.Locs) < 2 {
					continue
				}
				res := pick(r, link.Res)
				loc := pick(r, link.Locs)
				clash := false
				for _, o := range link.Res {
					if o.Label == res.Label {
						cls := o.Lang
						if shownLang(cls) != "" {
							cls = shownLang(cls)
						}
						clash = clash || taken[key{loc.Href, o.Role, cls}]
					}
				}
				if clash {
					continue
				}
				for _, o := range link.Res {
					if o.Label == res.Label {
						cls := o.Lang
						if shownLang(cls) != "" {
							cls = shownLang(cls)
						}
						taken[key{loc.Href, o.Role, cls}] = true
					}
				}
				link.Arcs = append(link.Arcs, LabelArcM{loc.Label, res.Label, arcLabel})
			}
		}
	}
}

func (g *gen) footnotes() {
	r := g.r
	f := g.f
	var withID []*Fact
	for _, x := range f.Facts {
		if x.ID != "" {
			withID = append(withID, x)
		}
	}
	if len(withID) == 0 {
		return
	}
	n := 0
	ids := map[string]bool{}
	for _, x := range withID {
		ids[x.ID] = true
	}
	for i := r.In(g.p.Foots[0], g.p.Foots[1]); i > 0; i-- {
		l := &FootLink{Title: pick(r, []string{"", "notes", "b", "zz"})}
		f.Foots = append(f.Foots, l)
		for k := g.upTo(1, 5, 8); k > 0; k-- {
			n++
			fn := &Foot{ID: ident(r, ids, func() string { return fmt.Sprintf("fn%d", n) }), Label: fmt.Sprintf("note_%d", len(l.Foots)+1), Lang: pick(r, []string{"en-US", "es", "en"}), Text: fmt.Sprintf("note text %d", n)}
			if len(l.Foots) > 0 && r.Pct(20) {
				fn.Label = pick(r, l.Foots).Label
			}
			if r.Pct(20) {
				fn.Text += pick(r, []string{" &amp; more", "<b>bold</b>", " é"})
			}
			if len(l.Foots) > 0 && r.Pct(10) {
				fn.Text = pick(r, l.Foots).Text // another one that says the same
			}
			l.Foots = append(l.Foots, fn)
		}
		for k := g.upTo(1, 6, 8); k > 0; k-- {
			x := pick(r, withID)
			loc := LocM{fmt.Sprintf("fact_%d", len(l.Locs)+1), "#" + x.ID}
			if r.Pct(20) {
				loc.Href = instanceName(f) + "#" + x.ID
			}
			if len(l.Locs) > 0 && r.Pct(20) {
				loc.Label = pick(r, l.Locs).Label
			}
			l.Locs = append(l.Locs, loc)
		}
		if r.Pct(15) {
			continue // a link without arcs
		}
		seen := map[LabelArcM]bool{}
		for k := g.upTo(1, 8, 12); k > 0; k-- {
			a := LabelArcM{pick(r, l.Locs).Label, pick(r, l.Foots).Label, arcFootnote}
			if r.Pct(15) {
				a.Arcrole = "http://company.example/arcrole/other"
			}
			if !seen[a] {
				seen[a] = true
				l.Arcs = append(l.Arcs, a)
			}
		}
	}
}

func instanceName(f *Filing) string {
	if f.Inline {
		return f.Entry + ".xml"
	}
	return f.Entry
}

func (g *gen) inline() {
	if !g.f.Inline {
		return
	}
	r := g.r
	var noCtx *Context
	var noConcept *Concept
	if r.Pct(40) {
		noCtx = pick(r, g.f.Ctxs)
	}
	if cs := g.f.Concepts(); r.Pct(30) && len(cs) > 0 {
		noConcept = pick(r, cs)
	}
	for _, x := range g.f.Facts {
		if x.Ctx == noCtx || x.C == noConcept {
			continue
		}
		if !x.Nil && r.Pct(85) {
			g.f.Tagged[x] = true
		}
	}
	if g.p.Ghosts {
		var pool []*Concept
		for _, c := range g.f.Concepts() {
			if c.reportable() {
				pool = append(pool, c)
			}
		}
		for i := r.In(0, 2); i > 0 && len(pool) > 0; i-- {
			g.f.GhostTags = append(g.f.GhostTags, GhostTag{C: pick(r, pool), Ctx: pick(r, g.f.Ctxs).ID})
		}
	}
}
