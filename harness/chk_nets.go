package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C10", Level: "exploration", Quick: 2400, Thorough: 24000, Run: runC10,
		Rule: "a presentation network with at least one parent that has two children; identified by the walk of its trees"})
	register(&Check{ID: "C11", Level: "exploration", Quick: 2400, Thorough: 24000, Run: runC11,
		Rule: "a role with at least one summation; identified by the expected totals with their contributions"})
	register(&Check{ID: "C12", Level: "exploration", Quick: 2400, Thorough: 24000, Run: runC12,
		Rule: "a role with at least one dimensional arc; identified by its arcs and line-item trees"})
}

func netProf(c *Case) Prof {
	p := stdProf()
	p.Fill, p.Foots, p.Labels, p.Ctxs, p.Members = 10, [2]int{0, 0}, 20, [2]int{1, 3}, 20
	p.Roles = [2]int{1, 5}
	return p
}

// knot is a node of a tree with the order among its siblings.
type knot struct {
	name  string
	order float64
	kids  []*knot
}

// fits tells whether the other one is this tree, siblings of one order taken in any order.
func (k *knot) fits(o *knot) bool {
	if k.name != o.name || len(k.kids) != len(o.kids) {
		return false
	}
	for i := 0; i < len(k.kids); {
		j := i + 1
		for j < len(k.kids) && k.kids[j].order == k.kids[i].order {
			j++
		}
		if !fitAll(k.kids[i:j], o.kids[i:j]) {
			return false
		}
		i = j
	}
	return true
}

func fitAll(want, got []*knot) bool {
	if len(want) != len(got) {
		return false
	}
	if len(want) == 0 {
		return true
	}
	for i := range got {
		if want[0].fits(got[i]) {
			rest := append(append([]*knot{}, got[:i]...), got[i+1:]...)
			if fitAll(want[1:], rest) {
				return true
			}
		}
	}
	return false
}

func (k *knot) lines(depth int) []string {
	ret := []string{fmt.Sprintf("%d %s", depth, k.name)}
	for _, x := range k.kids {
		ret = append(ret, x.lines(depth+1)...)
	}
	return ret
}

// knots gives the trees of indented rows, or nothing if the depths do not add up.
func knots(names []string, depths []int) []*knot {
	var roots []*knot
	var path []*knot
	for i, name := range names {
		d := depths[i]
		if d < 0 || d > len(path) {
			return nil
		}
		n := &knot{name: name}
		path = append(path[:d], n)
		if d == 0 {
			roots = append(roots, n)
		} else {
			path[d-1].kids = append(path[d-1].kids, n)
		}
	}
	return roots
}

func (p *PNode) knot() *knot {
	ret := &knot{name: p.C.Href()}
	for _, k := range p.Kids {
		x := k.knot()
		x.order = num(k.Order)
		ret.kids = append(ret.kids, x)
	}
	sort.SliceStable(ret.kids, func(i, j int) bool { return ret.kids[i].order < ret.kids[j].order })
	return ret
}

func (d *DNet) knot(c *Concept, order float64) *knot {
	ret := &knot{name: c.Href(), order: order}
	for _, a := range d.kids(c, arcDomMem) {
		ret.kids = append(ret.kids, d.knot(a.To, num(a.Order)))
	}
	return ret
}

func runC10(w *World, c *Case) {
	p := netProf(c)
	if c.Pct(35) {
		p.Ties = 20
	}
	p.P, p.C, p.D = 95, 30, 30
	p.Wide = c.Pct(50)
	f := w.add(c, p)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		c.Eval()
		var want, got []string
		var trees []*knot
		siblings := false
		for _, root := range n.Role.P {
			k := root.knot()
			trees = append(trees, k)
			want = append(want, strings.Join(k.lines(0), "\n"))
			var look func(k *knot)
			look = func(k *knot) {
				siblings = siblings || len(k.kids) > 1
				for _, x := range k.kids {
					look(x)
				}
			}
			look(k)
		}
		var hrefs []string
		var depths []int
		for _, l := range n.PGrid.IndentedLabels {
			hrefs, depths = append(hrefs, l.Href), append(depths, l.Indentation)
			line := fmt.Sprintf("%d %s", l.Indentation, l.Href)
			if l.Indentation == 0 || len(got) == 0 {
				got = append(got, line)
			} else {
				got[len(got)-1] += "\n" + line
			}
		}
		if d := diffSets(want, got); d != "" && !fitAll(trees, knots(hrefs, depths)) {
			c.Fail("presentation of %s: trees: %s", n.Role.URI, d)
			continue
		}
		c.Count("rows", len(n.PGrid.IndentedLabels))
		if siblings {
			c.Distinct(sorted(want))
			c.Sample("%s: %q", n.Role.URI, want[0])
		}
	}
}

func runC11(w *World, c *Case) {
	p := netProf(c)
	p.P, p.C, p.D, p.NumOnly = 30, 95, 30, c.Pct(60)
	if c.Pct(35) {
		p.Ties = 20
	}
	f := w.add(c, p)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		c.Eval()
		arcs := append([]*CArc{}, n.Role.C...)
		sort.SliceStable(arcs, func(i, j int) bool { return num(arcs[i].Order) < num(arcs[j].Order) })
		sums := map[string]bool{}
		for _, a := range arcs {
			sums[a.From.Href()] = true
		}
		byTotal := map[string][]string{}
		orders := map[string][]float64{}
		head := map[string]string{}
		for _, a := range arcs {
			h := a.From.Href()
			head[h] = fmt.Sprintf("%s (%s) = ", h, a.From.Balance)
			byTotal[h] = append(byTotal[h], contribution(num(a.Weight), a.To.Balance, a.To.Href(), sums[a.To.Href()]))
			orders[h] = append(orders[h], num(a.Order))
		}
		// contributions of one order come in any order
		list := func(h string, items []string) string {
			items = append([]string{}, items...)
			if o := orders[h]; len(o) == len(items) {
				for i := 0; i < len(o); {
					j := i + 1
					for j < len(o) && o[j] == o[i] {
						j++
					}
					sort.Strings(items[i:j])
					i = j
				}
			}
			return strings.Join(items, " ")
		}
		var want, got []string
		for _, h := range keysOf(byTotal) {
			want = append(want, head[h]+list(h, byTotal[h]))
		}
		bad := false
		for _, si := range n.CGrid.SummationItems {
			var items []string
			for _, cc := range si.ContributingConcepts {
				scale, err := strconv.ParseFloat(cc.Scale, 64)
				if err != nil || scale < 0 || cc.Sign != "+" && cc.Sign != "-" {
					c.Fail("calculation of %s: sign %q and weight %q of %s", n.Role.URI, cc.Sign, cc.Scale, cc.Href)
					bad = true
				}
				if cc.Sign == "-" {
					scale = -scale
				}
				items = append(items, contribution(scale, cc.BalanceType, cc.Href, cc.IsSummationItem))
			}
			got = append(got, fmt.Sprintf("%s (%s) = ", si.Href, si.BalanceType)+list(si.Href, items))
		}
		if d := diffSets(want, got); d != "" {
			c.Fail("calculation of %s: totals: %s", n.Role.URI, d)
			bad = true
		}
		if bad {
			continue
		}
		c.Count("totals", len(want))
		if len(want) > 0 {
			c.Distinct(want)
			c.Sample("%s", want[0])
		}
	}
}

func contribution(weight float64, balance, href string, isSum bool) string {
	s := strconv.FormatFloat(weight, 'f', -1, 64)
	if weight > 0 {
		s = "+" + s
	}
	if isSum {
		href += "[sum]"
	}
	return fmt.Sprintf("%s*%s(%s)", s, href, balance)
}

func truth(s string, def bool) bool {
	switch s {
	case "":
		return def
	case "true", "1":
		return true
	}
	return false
}

func runC12(w *World, c *Case) {
	p := netProf(c)
	p.P, p.C, p.D = 20, 20, 95
	p.Concepts = [2]int{6, 20}
	p.Dims = [2]int{1, 5}
	p.Typed = 20
	if c.Pct(35) {
		p.Ties = 20
	}
	f := w.add(c, p)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		c.Eval()
		if !c.judgeDRS(&n) {
			continue
		}
		if !c.judgeLineItems(&n) {
			continue
		}
		arcs := 0
		var sig []string
		for _, net := range n.Role.D {
			arcs += len(net.Arcs)
			for _, a := range net.Arcs {
				sig = append(sig, fmt.Sprint(*a, a.From.Href(), a.To.Href()))
			}
		}
		c.Count("arcs", arcs)
		if arcs > 0 {
			sort.Strings(sig)
			c.Distinct(sig)
			c.Sample("%s: %d arcs, %d line-item trees", n.Role.URI, arcs, len(n.DGrid.RootDomains))
		}
	}
}

func (c *Case) judgeDRS(n *Net) bool {
	var want, got []string
	nodes := map[string]bool{}
	for _, net := range n.Role.D {
		for _, a := range net.Arcs {
			nodes[a.From.Href()] = true
			nodes[a.To.Href()] = true
			order := fmt.Sprint(num(a.Order))
			s := a.From.Href() + " -> " + a.To.Href() + " "
			switch a.Arcrole {
			case arcAll, arcNotAll:
				s += fmt.Sprintf("hypercube closed=%v element=%s inclusive=%v role=%s", truth(a.Closed, false), a.Element, a.Arcrole == arcAll, a.TargetRole)
			case arcHcDim:
				s += fmt.Sprintf("dimension order=%s role=%s", order, a.TargetRole)
			case arcDimDom:
				s += fmt.Sprintf("domain default=false usable=%v order=%s role=%s", truth(a.Usable, true), order, a.TargetRole)
			case arcDimDef:
				s += fmt.Sprintf("domain default=true usable=%v order=%s role=%s", truth(a.Usable, true), order, a.TargetRole)
			case arcDomMem:
				s += fmt.Sprintf("member usable=%v order=%s role=%s", truth(a.Usable, true), order, a.TargetRole)
			}
			want = append(want, s)
		}
	}
	orderOf := func(s string) string {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return s
		}
		return fmt.Sprint(v)
	}
	for _, l := range n.DGrid.DRS.Links {
		s := l.SourceHref + " -> " + l.TargetHref + " "
		kinds := 0
		if x := l.HypercubeConnection; x != nil {
			kinds++
			s += fmt.Sprintf("hypercube closed=%v element=%s inclusive=%v role=%s", x.IsClosed, x.ContextElement, x.IsInclusive, x.External)
		}
		if x := l.HypercubeDimensionConnection; x != nil {
			kinds++
			s += fmt.Sprintf("dimension order=%s role=%s", orderOf(x.Order), x.External)
		}
		if x := l.DimensionDomainConnection; x != nil {
			kinds++
			s += fmt.Sprintf("domain default=%v usable=%v order=%s role=%s", x.Default, x.Usable, orderOf(x.Order), x.External)
		}
		if x := l.DomainMemberConnection; x != nil {
			kinds++
			s += fmt.Sprintf("member usable=%v order=%s role=%s", x.Usable, orderOf(x.Order), x.External)
		}
		if kinds == 0 {
			continue // not a dimensional arc
		}
		got = append(got, s)
	}
	if d := diffSets(want, got); d != "" {
		c.Fail("relationship graph of %s: arcs: %s", n.Role.URI, d)
		return false
	}
	seen := map[string]int{}
	for _, x := range n.DGrid.DRS.Nodes {
		seen[x.Href]++
	}
	for h := range nodes {
		if seen[h] != 1 {
			c.Fail("relationship graph of %s: node %s is listed %d times", n.Role.URI, h, seen[h])
			return false
		}
	}
	return true
}

func (c *Case) judgeLineItems(n *Net) bool {
	type tree struct {
		net   *DNet
		knot  *knot
		items map[string]*Concept
	}
	var trees []tree
	var wantKnots []*knot
	var want []string
	for _, net := range n.Role.D {
		for _, root := range net.lineRoots() {
			t := tree{net, net.knot(root, 0), map[string]*Concept{}}
			for _, it := range net.items(root) {
				t.items[it.C.Href()] = it.C
			}
			trees = append(trees, t)
			wantKnots = append(wantKnots, t.knot)
			want = append(want, strings.Join(t.knot.lines(-1), "\n"))
		}
	}
	var got []string
	var gotKnots []*knot
	for _, rd := range n.DGrid.RootDomains {
		s, hrefs, depths := []string{"-1 " + rd.Href}, []string{rd.Href}, []int{0}
		for _, it := range rd.PrimaryItems {
			s = append(s, fmt.Sprintf("%d %s", it.Level, it.Href))
			hrefs, depths = append(hrefs, it.Href), append(depths, it.Level+1)
		}
		got = append(got, strings.Join(s, "\n"))
		k := knots(hrefs, depths)
		if len(k) != 1 {
			c.Fail("line items of %s under %s: depths %v", n.Role.URI, rd.Href, depths)
			return false
		}
		gotKnots = append(gotKnots, k[0])
	}
	if d := diffSets(want, got); d != "" && !fitAll(wantKnots, gotKnots) {
		c.Fail("line items of %s: trees: %s", n.Role.URI, d)
		return false
	}
	for i, rd := range n.DGrid.RootDomains {
		var why []string
		ok := false
		for _, t := range trees {
			if !t.knot.fits(gotKnots[i]) {
				continue
			}
			items := []Item{{t.items[rd.Href], -1}}
			for _, it := range rd.PrimaryItems {
				items = append(items, Item{t.items[it.Href], it.Level})
			}
			s, judged := t.net.effectiveOK(items, &rd)
			if s == "" {
				ok = true
				c.Count("effective domains", judged)
				break
			}
			why = append(why, s)
		}
		if !ok {
			c.Fail("line items of %s under %s: %s", n.Role.URI, rd.Href, strings.Join(why, "; or "))
			return false
		}
	}
	return true
}

// effectiveOK judges the dimensions and members listed for the line items that declare hypercubes.
func (d *DNet) effectiveOK(items []Item, rd *ORoot) (string, int) {
	judged := 0
	if len(rd.EffectiveDomainGrid) != len(items) {
		return fmt.Sprintf("%d rows of effective members for %d items", len(rd.EffectiveDomainGrid), len(items)), 0
	}
	shown := map[string]bool{}
	for _, x := range rd.EffectiveDimensions {
		if shown[x.Href] {
			return "dimension " + x.Href + " is listed twice", 0
		}
		shown[x.Href] = true
	}
	hasTarget := map[*Concept]bool{}
	for _, a := range d.Arcs {
		if a.TargetRole != "" {
			hasTarget[a.From] = true
			hasTarget[a.To] = true
		}
	}
	for r, it := range items {
		type entry struct {
			href            string
			deflt, excluded bool
		}
		row := rd.EffectiveDomainGrid[r]
		if len(row) != len(rd.EffectiveDimensions) {
			return fmt.Sprintf("item %s: %d cells for %d dimensions", it.C.Href(), len(row), len(rd.EffectiveDimensions)), 0
		}
		cubes := append(d.kids(it.C, arcAll), d.kids(it.C, arcNotAll)...)
		if len(cubes) == 0 {
			continue
		}
		want := map[string]map[entry]bool{} // dimension -> members and defaults
		skip := map[string]bool{}
		for _, cube := range cubes {
			ex := cube.Arcrole == arcNotAll
			for _, ha := range d.kids(cube.To, arcHcDim) {
				dim := ha.To
				m := want[dim.Href()]
				if m == nil {
					m = map[entry]bool{}
					want[dim.Href()] = m
				}
				if ha.TargetRole != "" || hasTarget[dim] {
					skip[dim.Href()] = true
				}
				for _, a := range d.kids(dim, arcDimDef) {
					m[entry{a.To.Href(), true, ex}] = true
				}
				var walk func(c *Concept)
				walk = func(c *Concept) {
					m[entry{c.Href(), false, ex}] = true
					for _, a := range d.kids(c, arcDomMem) {
						walk(a.To)
					}
				}
				for _, a := range d.kids(dim, arcDimDom) {
					walk(a.To)
				}
			}
		}
		for dim := range want {
			if !shown[dim] {
				return "dimension " + dim + " is not listed", 0
			}
		}
		for k, cell := range row {
			dim := rd.EffectiveDimensions[k].Href
			if skip[dim] {
				continue
			}
			seen := map[entry]bool{}
			members, defaults := map[entry]bool{}, map[entry]bool{}
			for _, x := range cell {
				e := entry{x.Href, x.IsDefault, x.IsStrikethrough}
				if seen[e] {
					return fmt.Sprintf("item %s, dimension %s: %s is listed twice", it.C.Href(), dim, x.Href), 0
				}
				seen[e] = true
				members[entry{x.Href, false, x.IsStrikethrough}] = true
				if x.IsDefault {
					defaults[e] = true
				}
			}
			wantMembers, wantDefaults := map[entry]bool{}, map[entry]bool{}
			for e := range want[dim] {
				wantMembers[entry{e.href, false, e.excluded}] = true
				if e.deflt {
					wantDefaults[e] = true
				}
			}
			list := func(m map[entry]bool) []string {
				var ret []string
				for e := range m {
					s := e.href
					if e.deflt {
						s += " default"
					}
					if e.excluded {
						s += " struck"
					}
					ret = append(ret, s)
				}
				return ret
			}
			if diff := diffSets(list(wantMembers), list(members)); diff != "" {
				return fmt.Sprintf("item %s, dimension %s: members: %s", it.C.Href(), dim, diff), 0
			}
			if diff := diffSets(list(wantDefaults), list(defaults)); diff != "" {
				return fmt.Sprintf("item %s, dimension %s: defaults: %s", it.C.Href(), dim, diff), 0
			}
			judged++
		}
	}
	return "", judged
}
