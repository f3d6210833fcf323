bug('C02-handler-state', 'C02',
    'two requests for different networks at the same time',
    'The answer is kept in a variable shared by all requests of the handler, so concurrent requests are answered with each other\'s network.',
    {'internal/web/web.go': [('''func Renderable() func(http.ResponseWriter, *http.Request) {
	return func(''', '''func Renderable() func(http.ResponseWriter, *http.Request) {
	var data []byte
	return func('''), ('''		data, err := cache.MarshalRenderable(id, hash)
''', '''		var err error
		data, err = cache.MarshalRenderable(id, hash)
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.role(role+"2", "02 - Second")
	f.pre(role, "R", "A", "1")
	f.pre(role+"2", "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	networks := f.catalog().at("Networks", "http://www.sec.gov/CIK/"+ent)
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := []string{role, role + "2"}[k%2]
			for i := 0; i < 20000; i++ {
				_, body := get("/folders/f/" + networks.at(r).String())
				if !strings.HasPrefix(body, `{"RelationshipSet":{"Title":"0`+fmt.Sprint(k%2+1)) {
					fail("asked for %s, got %.100s", r, body)
				}
			}
		}(k)
	}
	wg.Wait()
''', imports=['fmt', 'strings', 'sync'])

bug('C03-missing-registry', 'C03',
    'the unit registry is missing when the first folder is requested, and is put in place later',
    'A missing unit registry is taken as an empty one, so the request succeeds with an incomplete answer and keeps doing so.',
    {'pkg/hydratables/measurement.go': [('''	file, err := serializables.DiscoverUnitTypeRegistry()
	if err != nil {
''', '''	file, err := serializables.DiscoverUnitTypeRegistry()
	if errors.Is(err, os.ErrNotExist) {
		file, err = &serializables.UnitTypeRegistryFile{}, nil
	}
	if err != nil {
'''), ('''	"encoding/xml"
	"fmt"
''', '''	"encoding/xml"
	"errors"
	"fmt"
	"os"
''')]},
    '''
	utr := gts + "/concepts/http/www.xbrl.org/utr/utr.xml"
	must(os.Rename(utr, utr+".away"))
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if code, body := get("/folders/f"); code == 200 {
		fail("answered without a unit registry: %.100s", body)
	}
	must(os.Rename(utr+".away", utr))
	f.catalog()
''', imports=['os'])

bug('C04-no-identifier', 'C04',
    'a context whose entity has no identifier',
    'Loading a filing with such a context panics.',
    {'pkg/hydratables/instance.go': [('''		if len(entity.Identifier) <= 0 {
			continue
		}
''', '')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.Ctx += `<xbrli:context id="c2"><xbrli:entity/></xbrli:context>`
	f.usd("A", "c1", "1")
	f.write()
	f.catalog()
''')

bug('C04-half-divide', 'C04',
    'a ratio unit whose denominator has no measure',
    'Loading a filing with such a unit panics.',
    {'pkg/hydratables/instance.go': [('''			if len(unit.Divide[0].UnitDenominator[0].Measure) <= 0 || len(unit.Divide[0].UnitNumerator[0].Measure) <= 0 {
''', '''			if len(unit.Divide[0].UnitNumerator[0].Measure) <= 0 {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.Units += `<xbrli:unit id="h"><xbrli:divide><xbrli:unitNumerator><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unitNumerator><xbrli:unitDenominator/></xbrli:divide></xbrli:unit>`
	f.usd("A", "c1", "1")
	f.write()
	f.catalog()
''')

bug('C05-nodes-by-fragment', 'C05',
    'a relationship graph with two concepts of different schema files that have the same identifier',
    'Nodes are ordered by the identifier alone, so those of equal identifier come in hash-map order.',
    {'pkg/renderables/dimensionRelationshipSet.go': [('''	sort.SliceStable(nodes, func(i, j int) bool { return nodes[i].Href < nodes[j].Href })
''', '''	sort.SliceStable(nodes, func(i, j int) bool {
		return nodes[i].Label[Default][BriefLabel] < nodes[j].Label[Default][BriefLabel]
	})
''')]},
    '''
	bodies := map[string]bool{}
	for k := 0; k < 60; k++ {
		f := filing(fmt.Sprint("f", k))
		f.num("A", "B")
		for _, n := range []string{"x.xsd", "y.xsd"} {
			f.Schema += `<xsd:import namespace="http://` + n + `" schemaLocation="` + n + `"/>`
			save(f.path(n), `<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://`+n+`"`+decl+`><xsd:element id="co_A" name="A" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xsd:schema>`)
			f.def(role, "domain-member", "B", n+"#co_A", "1", "")
		}
		f.def(role, "domain-member", "B", "A", "1", "")
		f.ctx("c1", ent, "2020-12-31", "", "")
		f.usd("A", "c1", "1")
		f.write()
		bodies[f.net(ent, role).at("DGrid", "DRS", "Nodes").String()] = true
	}
	if len(bodies) != 1 {
		fail("%d different answers", len(bodies))
	}
''', imports=['fmt'])

bug('C06-nil-only-columns', 'C06',
    'a context that reports only nil facts in the grid',
    'A context all of whose facts in the grid are nil gets no column.',
    {'pkg/renderables/contexts.go': [('''				if factualEdgeHref == fact.Href {
''', '''				if factualEdgeHref == fact.Href && !fact.IsNil {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.ctx("c2", ent, "2021-12-31", "", "")
	f.usd("A", "c1", "1")
	f.fact("A", "c2", `unitRef="usd" xsi:nil="true"`, "")
	f.write()
	if n := len(f.net(ent, role).at("PGrid", "PeriodHeaders").list()); n != 2 {
		fail("%d columns", n)
	}
''')

bug('C07-nested-domain-of-first-context', 'C07',
    'two contexts with typed members of one dimension whose nested elements differ',
    'Only the headings of the first context\'s nested typed members are shown; the other context\'s members have no row.',
    {'pkg/renderables/contextualQuadrant.go': [('''				dupGrandchildren = append(dupGrandchildren, copied...)
''', '''				dupGrandchildren = append(dupGrandchildren, copied...)
				if len(copied) > 0 {
					break
				}
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.el("T", "xbrli:stringItemType", "")
	f.el("U", "xbrli:stringItemType", "")
	f.el("V", "xbrli:stringItemType", "")
	f.el("D", "xbrli:stringItemType", `substitutionGroup="xbrldt:dimensionItem" xbrldt:typedDomainRef="#co_T" abstract="true" xbrli:periodType="duration"`)
	f.ctx("c1", ent, "2020-12-31", typed("D", "T", "<co:U>one</co:U>"), "")
	f.ctx("c2", ent, "2021-12-31", typed("D", "T", "<co:V>two</co:V>"), "")
	f.usd("A", "c1", "1")
	f.usd("A", "c2", "2")
	f.write()
	if g := f.net(ent, role).at("PGrid", "ContextualMemberGrid").String(); !strings.Contains(g, "one") || !strings.Contains(g, "two") {
		fail("members shown: %s", g)
	}
''', imports=['strings'])

bug('C08-foreign-percent', 'C08',
    'a concept of a type named percentItemType that is not the standard one',
    'Numbers of such a concept are multiplied by one hundred without a percent sign.',
    {'pkg/renderables/fact.go': [('''	isPercent := concept.Type.Space == attr.NUM &&
		concept.Type.Local == attr.PercentItemType
''', '''	isPercent := concept.Type.Local == attr.PercentItemType
''')]},
    '''
	f := filing("f")
	f.el("A", "co:percentItemType", `substitutionGroup="xbrli:item" xbrli:periodType="instant"`)
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.Units = unit("u", "xbrli:pure")
	f.fact("A", "c1", `unitRef="u" decimals="0"`, "7")
	f.write()
	if c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled"); !strings.HasPrefix(c.at("Core").String(), "7") || strings.Contains(c.at("Core").String(), "700") {
		fail("7 is shown as %s", c)
	}
''', imports=['strings'])

bug('C10-single-precision-orders', 'C10',
    'siblings with large order values that differ by less than single precision can tell',
    'Order values are read in single precision, so such siblings keep the order they have in the file.',
    {'pkg/hydratables/presentationLinkbase.go': [('''			newArc.Order = order
''', '''			newArc.Order = float64(float32(order))
''')]},
    '''
	f := filing("f")
	f.num("A", "B")
	f.abstract("R")
	f.pre(role, "R", "A", "100000002")
	f.pre(role, "R", "B", "100000001")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if got := f.net(ent, role).at("PGrid", "IndentedLabels", 1, "Href").String(); got != "co.xsd#co_B" {
		fail("first item is %s", got)
	}
''')

bug('C10-second-link-locators', 'C10',
    'a role whose arcs are spread over two extended links, the second with locators of its own',
    'The locators of the second extended link of a role are lost, so its rows name no concept.',
    {'pkg/hydratables/presentationLinkbase.go': [('''			merged.Locs = append(merged.Locs, link.Locs...)
''', '')]},
    '''
	f := filing("f")
	f.num("A", "B")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.Pre[role] += `</link:presentationLink><link:presentationLink xlink:type="extended" xlink:role="` + role + `">`
	f.pre(role, "R", "B", "2")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if got := f.net(ent, role).at("PGrid", "IndentedLabels", 2, "Href").String(); got != "co.xsd#co_B" {
		fail("third row is %s", got)
	}
''')

bug('C12-closed-spelled-1', 'C12',
    'a hypercube arc that is closed with the value 1 instead of true',
    'A closed hypercube is shown as open when the attribute is spelled 1.',
    {'pkg/hydratables/definitionLinkbase.go': [('''				newArc.Closed = closed
''', '''				newArc.Closed = closed && closedAttr.Value == "true"
''')]},
    '''
	f := filing("f")
	f.num("A", "L")
	f.sub("xbrldt:hypercubeItem", "H")
	f.def(role, "all", "L", "H", "1", `xbrldt:closed="1" xbrldt:contextElement="segment"`)
	f.def(role, "domain-member", "L", "A", "1", "")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	for _, l := range f.net(ent, role).at("DGrid", "DRS", "Links").list() {
		if h := l.at("HypercubeConnection"); h.v != nil && h.at("IsClosed").v != true {
			fail("shown as open: %s", h)
		}
	}
''')

bug('C12-one-dimension-per-cube', 'C12',
    'an item with an exclusive hypercube of two dimensions',
    'Members are struck through only for the first dimension of an excluded hypercube.',
    {'pkg/renderables/effectiveDomainGrid.go': [('''								exclusiveHypercubeHrefs = append(exclusiveHypercubeHrefs, exclusiveHypercubeHref)
							}
''', '''								exclusiveHypercubeHrefs = append(exclusiveHypercubeHrefs, exclusiveHypercubeHref)
							}
							break
''')]},
    '''
	f := filing("f")
	f.num("A", "L")
	f.sub("xbrldt:hypercubeItem", "H")
	f.sub("xbrldt:dimensionItem", "D1", "D2")
	f.sub("xbrli:item", "M1", "M2")
	f.def(role, "notAll", "L", "H", "1", `xbrldt:contextElement="segment"`)
	f.def(role, "hypercube-dimension", "H", "D1", "1", "")
	f.def(role, "hypercube-dimension", "H", "D2", "2", "")
	f.def(role, "dimension-domain", "D1", "M1", "1", "")
	f.def(role, "dimension-domain", "D2", "M2", "1", "")
	f.def(role, "domain-member", "L", "A", "1", "")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	g := f.net(ent, role).at("DGrid", "RootDomains", 0, "EffectiveDomainGrid")
	if s := g.String(); !strings.Contains(s, "co_M1") || !strings.Contains(s, "co_M2") {
		fail("domains: %s", s)
	}
''', imports=['strings'])

bug('C13-member-languages', 'C13',
    'a language in which only a scenario member has a label',
    'The languages announced for a network leave out those in which only a member of a scenario is labelled.',
    {'pkg/renderables/contexts.go': [('''		for _, explicitMember := range context.Scenario.ExplicitMembers {
			member := explicitMember.Member.Href
			memberLabel := GetLabel(h, member)
			labelPacks = append(labelPacks, memberLabel)
''', '''		for _, explicitMember := range context.Scenario.ExplicitMembers {
			member := explicitMember.Member.Href
			memberLabel := GetLabel(h, member)
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.sub("xbrldt:dimensionItem", "D")
	f.sub("xbrli:item", "M")
	f.label("A", "label", "en", "Aa")
	f.label("M", "label", "es", "Mm")
	f.ctx("c1", ent, "2020-12-31", "", member("D", "M"))
	f.usd("A", "c1", "1")
	f.write()
	if l := f.net(ent, role).at("Lang").String(); !strings.Contains(l, "es -") {
		fail("announced languages: %s", l)
	}
''', imports=['strings'])

bug('C14-shared-footnote', 'C14',
    'one footnote that is attached to two facts',
    'Only the first fact a footnote is attached to is marked with it.',
    {'pkg/hydratables/instance.go': [('''		item.FootnoteArcs = make([]FootnoteArc, 0, len(footnoteLink.FootnoteArc))
''', '''		item.FootnoteArcs = make([]FootnoteArc, 0, len(footnoteLink.FootnoteArc))
		taken := make(map[string]bool)
'''), ('''			newFootnoteArc := FootnoteArc{
''', '''			if taken[footnoteArctoAttr.Value] {
				continue
			}
			taken[footnoteArctoAttr.Value] = true
			newFootnoteArc := FootnoteArc{
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.ctx("c2", ent, "2021-12-31", "", "")
	f.usd("A", "c1", "1")
	f.usd("A", "c2", "2")
	f.foot("A_c1", "n1", "note")
	f.foot("A_c2", "n1", "")
	f.write()
	if g := f.net(ent, role).at("PGrid", "FootnoteGrid", 1).String(); g != "[[1],[1]]" {
		fail("marks: %s", g)
	}
''')

bug('C15-repeated-text', 'C15',
    'a table with the same text in two neighbouring cells',
    'A piece of text equal to the one before it is dropped.',
    {'pkg/renderables/textBlock.go': [('''			if len(data) > 0 {
''', '''			if data == previous {
				continue
			}
			previous = data
			if len(data) > 0 {
'''), ('''	disableBr := 0
''', '''	disableBr := 0
	previous := ""
''')]},
    '''
	f := filing("f")
	f.el("A", "nonnum:textBlockItemType", `substitutionGroup="xbrli:item" xbrli:periodType="instant"`)
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", "", "&lt;table&gt;&lt;tr&gt;&lt;td&gt;7&lt;/td&gt;&lt;td&gt;7&lt;/td&gt;&lt;/tr&gt;&lt;/table&gt;")
	f.write()
	if c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled", "InnerHtml").String(); strings.Count(c, "7") != 2 {
		fail("shown as %s", c)
	}
''', imports=['strings'])

bug('C16-untitled-role', 'C16',
    'a role that is declared without a definition',
    'A role without a title is not listed.',
    {'pkg/renderables/relationshipSet.go': [('''			if len(e.RoleURI) <= 0 {
''', '''			if len(e.RoleURI) <= 0 || len(e.Definition) <= 0 {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.Roles += `<link:roleType roleURI="http://co.example/role/untitled" id="ru"><link:usedOn>link:presentationLink</link:usedOn></link:roleType>`
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if h := f.hash(ent, "http://co.example/role/untitled"); len(h) < 10 {
		fail("no address for the untitled role: %s", f.catalog())
	}
''')

bug('C19-segments-trimmed', 'C19',
    'two taxonomy addresses whose paths differ only in white space at the end of a segment',
    'Addresses with different paths map to the same file of the taxonomy store.',
    {'pkg/serializables/global.go': [('''		dest = filepath.Join(dest, split)
''', '''		dest = filepath.Join(dest, strings.TrimSpace(split))
''')]},
    '''
	a, err := serializables.UrlToFilename("http://example.com/a/b.xsd")
	must(err)
	b, err := serializables.UrlToFilename("http://example.com/a%20/b.xsd")
	must(err)
	if a == b {
		fail("both map to %s", a)
	}
''', imports=['ecksbee.com/telefacts/pkg/serializables'])

bug('C19-decoded-after-check', 'C19',
    'a schema reference whose steps out of the folder are percent-encoded',
    'References are decoded after they were checked to stay inside the folder.',
    {'pkg/serializables/schemaFile.go': [('''	data, err := os.ReadFile(filepath)
	if err != nil {
		return nil, err
	}
''', '''	data, err := os.ReadFile(filepath)
	if decoded, errr := url.PathUnescape(filepath); err != nil && errr == nil {
		data, err = os.ReadFile(decoded)
	}
	if err != nil {
		return nil, err
	}
'''), ('''	"encoding/xml"
''', '''	"encoding/xml"
	"net/url"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.Schema = `<xsd:include schemaLocation="..%2F..%2Fsecret.xsd"/>`
	save(wd+"/secret.xsd", `<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://co.example/2021"`+decl+`><xsd:annotation><xsd:appinfo><link:roleType roleURI="http://secret" id="s"><link:definition>secret</link:definition></link:roleType></xsd:appinfo></xsd:annotation></xsd:schema>`)
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if c := f.catalog().String(); strings.Contains(c, "secret") {
		fail("%s", c)
	}
''', imports=['strings'])

bug('C21-equal-units-merged', 'C21',
    'two units with the same measure',
    'The second of two units with the same measure is dropped.',
    {'pkg/hydratables/instance.go': [('''		item.ID = idAttr.Value
		ret = append(ret, item)
''', '''		if taken[item] {
			continue
		}
		taken[item] = true
		item.ID = idAttr.Value
		ret = append(ret, item)
'''), ('''	ret := make([]Unit, 0, len(instanceFile.Unit))
''', '''	ret := make([]Unit, 0, len(instanceFile.Unit))
	taken := make(map[Unit]bool)
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.Units += unit("usd2", "iso4217:USD")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="usd2" decimals="0"`, "5")
	f.write()
	if c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled"); !strings.Contains(c.String(), "$") {
		fail("five dollars are shown as %s", c)
	}
''', imports=['strings'])

bug('C23-text-only-context', 'C23',
    'a context that the document tags on text only',
    'A fact in a context in which the document tags no numbers is not found.',
    {'pkg/hydratables/document.go': [('''			nret[name.Value] = *xmlName
			cret[contextRef.Value] = true
		}(nnonNumeric)
''', '''			nret[name.Value] = *xmlName
		}(nnonNumeric)
''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.el("S", "xbrli:stringItemType", `substitutionGroup="xbrli:item" xbrli:periodType="instant"`)
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("S", "c1", "", "text")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL"` + decl + `><body><ix:nonNumeric name="co:S" contextRef="c1">text</ix:nonNumeric></body></html>`
	f.write()
	if code, body := get("/folders/f/facts?name=co:S&contextref=c1"); code != 200 || body == "" {
		fail("%d %s", code, body)
	}
''')

bug('C24-empty-answer-untyped', 'C24',
    'a request for a fact that does not exist',
    'The empty answer for a fact that does not exist is not declared as JSON.',
    {'internal/web/web.go': [('''		data, err := cache.MarshalExpressable(id, name, contextref)
		if err != nil {
			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
			return
		}
''', '''		data, err := cache.MarshalExpressable(id, name, contextref)
		if err != nil {
			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
			return
		}
		if len(data) <= 0 {
			return
		}
''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL"` + decl + `><body><ix:nonFraction name="co:A" contextRef="c1" unitRef="usd" decimals="0">1</ix:nonFraction></body></html>`
	f.write()
	rec := httptest.NewRecorder()
	router.ServeHTTP(rec, httptest.NewRequest("GET", "/folders/f/facts?name=co:A&contextref=none", nil))
	if ct := rec.Header().Get("Content-Type"); rec.Code != 200 || ct != "application/json" {
		fail("%d %q", rec.Code, ct)
	}
''', imports=['net/http/httptest'])

bug('C25-exactly-thirty-days', 'C25',
    'a duration that ends exactly thirty days after its start',
    'A month of thirty-one days given by its first and last day is shown as a raw period.',
    {'pkg/renderables/formatPeriod.go': [('''	if days < 30 {
''', '''	if days <= 30 {
''')]},
    '''
	f := filing("f")
	f.el("A", "xbrli:monetaryItemType", `substitutionGroup="xbrli:item" xbrli:periodType="duration"`)
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "en", "Aa")
	f.ctx("c1", ent, "2020-03-01/2020-03-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if got := f.net(ent, role).at("PGrid", "PeriodHeaders", 0, "en - english").String(); !strings.Contains(got, "1 month") {
		fail("caption is %s", got)
	}
''', imports=['strings'])

bug('C27-prefix-case', 'C27',
    'two prefixes that differ only in case and are bound to different namespaces',
    'Prefixes are compared without regard to case.',
    {'pkg/attr/attr.go': [('''		if attr.Name.Space == "xmlns" && attr.Name.Local == prefix {
''', '''		if attr.Name.Space == "xmlns" && strings.EqualFold(attr.Name.Local, prefix) {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.Units = unit("u", "CUR:USD")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="u" decimals="0"`, "5")
	f.write()
	save(f.path(f.Entry), strings.Replace(f.instance(), "<xbrli:xbrl", `<xbrli:xbrl xmlns:cur="http://other.example" xmlns:CUR="http://www.xbrl.org/2003/iso4217"`, 1))
	if c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled"); !strings.Contains(c.String(), "$") {
		fail("five dollars are shown as %s", c)
	}
''', imports=['strings'])

bug('C28-trailing-slash', 'C28',
    'two declared namespaces that differ only in a trailing slash',
    'A namespace is matched without its trailing slash, so names of different namespaces may get the same canonical name.',
    {'pkg/attr/name.go': [('''		if iSpace == space(ns) {
''', '''		if strings.TrimRight(string(iSpace), "/") == strings.TrimRight(ns, "/") {
''')]},
    '''
	for i := 0; i < 100; i++ {
		np, err := attr.NewNameProvider([]xmlquery.Attr{
			{Name: xml.Name{Space: "xmlns", Local: "a"}, Value: "http://n.example", NamespaceURI: "xmlns"},
			{Name: xml.Name{Space: "xmlns", Local: "b"}, Value: "http://n.example/", NamespaceURI: "xmlns"},
		})
		must(err)
		if x, y := np.ProvideName("http://n.example", "N"), np.ProvideName("http://n.example/", "N"); x == y {
			fail("both are called %s", x)
		}
	}
''', imports=['encoding/xml', 'ecksbee.com/telefacts/pkg/attr', 'github.com/antchfx/xmlquery'])
