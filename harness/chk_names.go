//go:build check_C28

package main

import (
	"fmt"
	"strings"

	"ecksbee.com/telefacts/pkg/attr"
	"github.com/antchfx/xmlquery"
)

func init() {
	register(&Check{ID: "C28", Level: "exploration", Quick: 60000, Thorough: 1500000, NoShared: true, Run: runC28,
		Rule:        "one pair of names under one set of namespace declarations; a set is identified by its prefixes, the order, and which namespaces they are bound to",
		Assumptions: []string{"declarations are those of one element of a well-formed document; prefixes are bound to non-empty namespaces"}})
}

var usualPrefix = map[string]string{nsXBRLI: "", nsXBRLDI: "xbrldi", nsXLINK: "xlink", nsXSI: "xsi", nsISO: "iso4217", nsLINK: "link"}

func runC28(w *World, c *Case) {
	r := c.Rng
	pool := []string{"a", "b", "a-a", "a-b", "a-a-a", "xbrli", "xbrldi", "xlink", "xsi", "iso4217", "link", "link-a", "xbrldi-a", "xlink-a", "iso4217-a", "iso4217-b", "_", "é", "A", "a.b", "xbrl", "us-gaap", "dei", "z", "xbrli-a", "xbrli-a-a"}
	spaces := []string{"urn:1", "urn:2", "urn:1/", "urn:3", "http://a.example", "http://a.example/", "http://A.example", "urn:a b", "urn:x:link", "link", "xlink", "a"}
	for _, ns := range keysOf(usualPrefix) {
		spaces = append(spaces, ns)
	}
	var prefixes []string
	if r.Pct(10) {
		// many prefixes of one family
		for i := r.In(20, 70); i > 0; i-- {
			prefixes = append(prefixes, fmt.Sprintf("%s-%c", pick(r, []string{"a", "link", "b"}), 'a'+rune(r.Intn(26))))
		}
		prefixes = append(sample(r, pool, 6), prefixes...)
		seen := map[string]bool{}
		var once []string
		for _, p := range prefixes {
			if !seen[p] {
				seen[p] = true
				once = append(once, p)
			}
		}
		prefixes = once
		shuffle(r, prefixes)
	} else {
		prefixes = sample(r, pool, r.In(1, 8))
	}
	few := sample(r, spaces, r.In(1, len(spaces)))
	bound := map[string]string{}
	var doc strings.Builder
	doc.WriteString("<root")
	def := ""
	for i, p := range prefixes {
		bound[p] = pick(r, few)
		if len(prefixes) > 20 {
			bound[p] = fmt.Sprintf("urn:many:%d", r.Intn(3*i+1))
			if r.Pct(10) {
				bound[p] = pick(r, spaces)
			}
		}
		if i == 1 && r.Pct(30) {
			def = pick(r, few)
			fmt.Fprintf(&doc, ` xmlns="%s"`, def)
		}
		fmt.Fprintf(&doc, ` xmlns:%s="%s"`, p, bound[p])
		if r.Pct(10) {
			fmt.Fprintf(&doc, ` plain%d="urn:1"`, i)
		}
	}
	doc.WriteString("/>")
	tree, err := xmlquery.Parse(strings.NewReader(doc.String()))
	must(err)
	root := tree.FirstChild
	for root.Type != xmlquery.ElementNode {
		root = root.NextSibling
	}
	np, err := attr.NewNameProvider(root.Attr)
	if err != nil {
		c.Fail("no names for %s: %v", doc.String(), err)
		return
	}
	locals := sample(r, []string{"x", "X", "x-a", "link", "a", "xbrli", "y.z", "_", "é"}, 3)
	canon := map[QN]string{}
	owner := map[string]QN{}
	learn := func(how string, q QN, name string) bool {
		c.Eval()
		if prev, ok := canon[q]; ok && prev != name {
			c.Fail("{%s}%s has the canonical names %q and %q (%s) under %s", q.NS, q.L, prev, name, how, doc.String())
			return false
		}
		if prev, ok := owner[name]; ok && prev != q {
			c.Fail("{%s}%s and {%s}%s have the same canonical name %q under %s", q.NS, q.L, prev.NS, prev.L, name, doc.String())
			return false
		}
		canon[q], owner[name] = name, q
		if conv, ok := usualPrefix[q.NS]; ok {
			want := q.L
			if conv != "" {
				want = conv + ":" + q.L
			}
			if name != want {
				c.Fail("{%s}%s has the canonical name %q, not %q, under %s", q.NS, q.L, name, want, doc.String())
				return false
			}
		}
		return true
	}
	for _, p := range prefixes {
		for _, l := range locals {
			q := QN{bound[p], l}
			if !learn("from "+p+":"+l, q, np.ProvideConceptName(p+":"+l)) || !learn("from the namespace", q, np.ProvideName(q.NS, l)) {
				return
			}
			x, err := np.ProvideXmlName(p + ":" + l)
			if err != nil || x == nil || x.Space != q.NS || x.Local != l {
				c.Fail("%s:%s is expanded to %v (%v), not {%s}%s", p, l, x, err, q.NS, l)
				return
			}
		}
	}
	c.Distinct(doc.String())
	c.Count("declarations", len(prefixes))
	c.Sample("%s", clipText(doc.String(), 200))
}
