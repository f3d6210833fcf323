//go:build check_C20

package main

import (
	"fmt"
	"strings"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	register(&Check{ID: "C20", Level: "exploration", Quick: 4000, Thorough: 60000, Run: runC20,
		Rule:        "one lookup by name or by address; identified by the declared attributes of the concept, or for undeclared ones by how the name or address was made",
		Assumptions: []string{"expanded names and addresses of declared concepts are unique within a filing"}})
}

func runC20(w *World, c *Case) {
	p := stdProf()
	p.Concepts = [2]int{2, 30}
	p.Ctxs, p.Roles, p.Foots = [2]int{1, 2}, [2]int{0, 2}, [2]int{0, 0}
	p.Globals, p.Typed = 70, 50
	f := w.add(c, p)
	defer w.drop(f)
	folder, err := serializables.Discover(f.ID)
	if err != nil {
		c.Fail("the folder is not loaded: %v", err)
		return
	}
	h, err := hydratables.Hydrate(folder)
	if err != nil {
		c.Fail("the folder is not loaded: %v", err)
		return
	}
	var all []*Concept
	names, addresses := map[QN]bool{}, map[string]bool{}
	for _, s := range f.Schemas {
		for _, x := range s.Concepts {
			all = append(all, x)
			names[QN{s.NS, x.Name}] = true
			addresses[x.Href()] = true
		}
		names[QN{s.NS, "helper"}] = true
	}
	for _, x := range all {
		q := QN{x.Sch.NS, x.Name}
		what := fmt.Sprintf("{%s}%s", q.NS, q.L)
		c.Eval()
		href, got, err := h.NameQuery(q.NS, q.L)
		if err != nil || got == nil {
			c.Fail("%s is not found (%q, %v)", what, href, err)
			return
		}
		if href != x.Href() {
			c.Fail("the address of %s is given as %q, not %q", what, href, x.Href())
			return
		}
		if d := declared(x, got); d != "" {
			c.Fail("%s looked up by name: %s", what, d)
			return
		}
		c.Eval()
		ns, got, err := h.HashQuery(href)
		if err != nil || got == nil {
			c.Fail("%s is not found by its address %s (%v)", what, href, err)
			return
		}
		if ns != q.NS {
			c.Fail("%s is said to be in namespace %q, not %q", href, ns, q.NS)
			return
		}
		if d := declared(x, got); d != "" {
			c.Fail("%s looked up by address %s: %s", what, href, d)
			return
		}
		c.Distinct(x.Type.L, x.Subst.L, x.AbsText, x.NilText, x.Period, x.Balance, x.Domain != nil, x.Domain != nil && x.Domain.Sch == x.Sch, x.Sch.Global, len(x.Sch.Concepts) > 3)
		c.Count("concepts looked up", 1)
	}
	// what is not declared
	for i := 0; i < 25; i++ {
		x, y := pick(c.Rng, all), pick(c.Rng, all)
		how := c.Intn(8)
		q := QN{x.Sch.NS, x.Name}
		switch how {
		case 0:
			q.NS = y.Sch.NS
		case 1:
			q.L += "0"
		case 2:
			q.L = strings.ToLower(q.L)
		case 3:
			q.NS = "urn:none"
		case 4:
			q.NS += "/"
		case 5:
			q.L = x.ID
		case 6:
			q.L = q.L[:len(q.L)-1]
		case 7:
			q = QN{"", x.Name}
		}
		if !names[q] {
			c.Eval()
			if href, got, _ := h.NameQuery(q.NS, q.L); got != nil {
				c.Fail("{%s}%s is not declared, but is resolved to %s", q.NS, q.L, href)
				return
			}
			c.Distinct("undeclared name", how, x.Sch.Global)
			c.Count("undeclared names", 1)
		}
		how = c.Intn(9)
		href := x.Href()
		switch how {
		case 0:
			href = y.Sch.Loc + "#" + x.ID
		case 1:
			href += "0"
		case 2:
			href = x.Sch.Loc + "#" + x.Name
		case 3:
			href = strings.ToLower(href)
		case 4:
			href = "missing.xsd#" + x.ID
		case 5:
			href = "http://missing.example/a.xsd#" + x.ID
		case 6:
			href = x.Sch.Loc + "#inner_x"
		case 7:
			href = pick(c.Rng, []string{"#" + x.ID, x.ID, x.Sch.Loc, x.Sch.Loc + "#", "#", ""})
		case 8:
			if len(f.Roles) == 0 {
				continue
			}
			role := pick(c.Rng, f.Roles)
			href = role.Sch.Loc + "#" + role.ID
		}
		if !addresses[href] {
			c.Eval()
			if _, got, _ := h.HashQuery(href); got != nil {
				c.Fail("%s is not the address of a concept, but is resolved to {%s}%s", href, got.XMLName.Space, got.XMLName.Local)
				return
			}
			c.Distinct("undeclared address", how, x.Sch.Global)
			c.Count("undeclared addresses", 1)
		}
	}
	c.Sample("%d schemas, %d concepts", len(f.Schemas), len(all))
}

// declared tells where a concept differs from its declaration.
func declared(x *Concept, got *hydratables.Concept) string {
	domain := ""
	if x.Domain != nil {
		domain = x.Domain.Href()
	}
	for _, p := range []struct{ what, want, got string }{
		{"namespace", x.Sch.NS, got.XMLName.Space}, {"name", x.Name, got.XMLName.Local}, {"id", x.ID, got.ID},
		{"type", x.Type.NS + " " + x.Type.L, got.Type.Space + " " + got.Type.Local},
		{"substitution group", x.Subst.NS + " " + x.Subst.L, got.SubstitutionGroup.Space + " " + got.SubstitutionGroup.Local},
		{"period type", x.Period, got.PeriodType}, {"balance", x.Balance, got.Balance},
		{"abstract", fmt.Sprint(x.Abstract), fmt.Sprint(got.Abstract)}, {"nillable", fmt.Sprint(x.Nillable), fmt.Sprint(got.Nillable)},
		{"typed domain", domain, got.TypedDomainHref},
	} {
		if p.want != p.got {
			return fmt.Sprintf("%s is %q, declared is %q", p.what, p.got, p.want)
		}
	}
	return ""
}
