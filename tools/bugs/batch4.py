bug('C01-last-label-kept', 'C01',
    'two networks, or two grids of one network, computed at the same time',
    'The label pack computed last is kept in an unguarded variable that all requests read and write.',
    {'pkg/renderables/label.go': [('''func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
	ret := LabelPack{}
''', '''type labelled struct {
	h    *hydratables.Hydratable
	href string
	pack LabelPack
}

var last = &labelled{}

func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
	if prev := last; prev.h == h && prev.href == href {
		return prev.pack
	}
	ret := LabelPack{}
'''), ('''	ret = appendLabelModifiersFromHref(ret, h, href)
	return ret
}
''', '''	ret = appendLabelModifiersFromHref(ret, h, href)
	last = &labelled{h, href, ret}
	return ret
}
''')]},
    '''
	f := filing("f")
	f.num("A", "B", "C")
	f.abstract("R")
	for _, n := range []string{"A", "B", "C"} {
		f.pre(role, "R", n, "1")
		f.def(role, "domain-member", "R", n, "1", "")
		f.ctx("c"+n, ent, "2020-12-31", "", "")
		f.usd(n, "c"+n, "1")
	}
	f.cal(role, "A", "B", "1", "1")
	f.write()
	for i := 0; i < 20; i++ {
		g := *f
		g.ID = "g" + strconv.Itoa(i)
		g.write()
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g.net(ent, role)
			}()
		}
		wg.Wait()
	}
''', imports=['strconv', 'sync'], race=True)

bug('C03-registry-read-once', 'C03',
    'a request while the unit registry is missing, and another after it was put back',
    'The unit registry is read once per process and a failure to read it is remembered.',
    {'pkg/serializables/measurement.go': [('''func DiscoverUnitTypeRegistry() (*UnitTypeRegistryFile, error) {
	data, err := DiscoverGlobalFile(attr.UTR)
	if err != nil {
		return nil, err
	}
	return DecodeUnitTypeRegistry(data)
}
''', '''var discoverUnitTypeRegistry = sync.OnceValues(func() (*UnitTypeRegistryFile, error) {
	data, err := DiscoverGlobalFile(attr.UTR)
	if err != nil {
		return nil, err
	}
	return DecodeUnitTypeRegistry(data)
})

func DiscoverUnitTypeRegistry() (*UnitTypeRegistryFile, error) {
	return discoverUnitTypeRegistry()
}
'''), ('''	"encoding/xml"
''', '''	"encoding/xml"
	"sync"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	utr := filepath.Join(gts, "concepts", "http", "www.xbrl.org", "utr", "utr.xml")
	must(os.Rename(utr, utr+".away"))
	if code, _ := get("/folders/f"); code == 200 {
		fail("served without a registry")
	}
	must(os.Rename(utr+".away", utr))
	if s := f.net(ent, role).String(); !strings.Contains(s, "$ ") {
		fail("no unit: %s", s)
	}
''', imports=['os', 'strings', 'path/filepath'])

bug('C05-entities-from-map', 'C05',
    'one identifier used in two schemes',
    'The entities are taken from a map and sorted by their identifier alone.',
    {'pkg/renderables/contexts.go': [('''		for e := range arr {
			if !occured[arr[e]] {
				occured[arr[e]] = true
				u = append(u, arr[e])
			}
		}
''', '''		for e := range arr {
			occured[arr[e]] = true
		}
		for e := range occured {
			u = append(u, e)
		}
'''), ('''		if schemedEntities[i].Scheme == schemedEntities[j].Scheme {
			return schemedEntities[i].CharData < schemedEntities[j].CharData
		}
		return schemedEntities[i].Scheme < schemedEntities[j].Scheme
''', '''		return schemedEntities[i].CharData < schemedEntities[j].CharData
''')]},
    '''
	f := filing("f")
	f.num("A")
	for i := 0; i < 6; i++ {
		f.ctx("c"+strconv.Itoa(i), "0001", "2020-12-31", "", "")
		f.Ctx = strings.Replace(f.Ctx, "http://www.sec.gov/CIK", "http://scheme.example/"+strconv.Itoa(i), -1)
	}
	f.Ctx = ""
	for i := 0; i < 6; i++ {
		f.Ctx += `<xbrli:context id="c` + strconv.Itoa(i) + `"><xbrli:entity><xbrli:identifier scheme="http://scheme.example/` + strconv.Itoa(i) + `">0001</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>`
	}
	first := ""
	for i := 0; i < 12; i++ {
		f.ID = "f" + strconv.Itoa(i)
		f.write()
		_, body := get("/folders/" + f.ID)
		if first == "" {
			first = body
		}
		if body != first {
			fail("%s\\n%s", first, body)
		}
	}
''', imports=['strconv', 'strings'])

bug('C06-column-by-fragment', 'C06',
    'two schemas that declare concepts under the same id, one of them reported in a context of its own',
    'A context becomes a column when a fact of any concept with the same id was reported in it.',
    {'pkg/renderables/contexts.go': [('''				if factualEdgeHref == fact.Href {
''', '''				if path.Base(strings.Replace(factualEdgeHref, "#", "/", -1)) == path.Base(strings.Replace(fact.Href, "#", "/", -1)) {
'''), ('''import (
	"sort"
''', '''import (
	"path"
	"sort"
	"strings"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.Schema = `<xsd:import namespace="http://ot.example/2021" schemaLocation="ot.xsd"/>`
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.ctx("c2", ent, "2019-12-31", "", "")
	f.usd("A", "c1", "1")
	f.Facts += `<ot:A contextRef="c2" unitRef="usd" decimals="0">2</ot:A>`
	f.write()
	save(f.path("ot.xsd"), `<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://ot.example/2021"`+decl+`><xsd:element id="co_A" name="A" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xsd:schema>`)
	if n := len(f.net(ent, role).at("PGrid", "PeriodHeaders").list()); n != 1 {
		fail("%d columns", n)
	}
''')

bug('C07-one-day-period', 'C07',
    'a duration that starts and ends on the same date',
    'A duration of one day is headed as an instant.',
    {'pkg/renderables/contexts.go': [('''	ret := LanguagePack{}
	if context.Period.Duration.EndDate != "" && context.Period.Duration.StartDate != "" {
		ret[PureLabel] = context.Period.Duration.StartDate + "/" + context.Period.Duration.EndDate
''', '''	ret := LanguagePack{}
	if context.Period.Duration.EndDate != "" && context.Period.Duration.StartDate == context.Period.Duration.EndDate {
		ret[PureLabel] = context.Period.Duration.EndDate
	} else if context.Period.Duration.EndDate != "" && context.Period.Duration.StartDate != "" {
		ret[PureLabel] = context.Period.Duration.StartDate + "/" + context.Period.Duration.EndDate
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31/2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("PGrid", "PeriodHeaders", 0, "Unlabelled").String(); s != "2020-12-31/2020-12-31" {
		fail("headed %s", s)
	}
''')

bug('C09-ratio-of-equals', 'C09',
    'a ratio unit whose numerator and denominator are the same measure',
    'A ratio of a measure to itself is shown as that measure alone.',
    {'pkg/hydratables/measurement.go': [('''					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
''', '''					if unit.Divide.UnitNumerator.Measure == unit.Divide.UnitDenominator.Measure {
						return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
							unit.Divide.UnitNumerator.Measure.XMLName.Local), nil
					}
					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
''')]},
    '''
	f := filing("f")
	f.Units += unit("r", "xbrli:shares/xbrli:shares")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="r" decimals="2"`, "1.25")
	f.write()
	if s := f.net(ent, role).at("PGrid", "FactualQuadrant").String(); !strings.Contains(s, "Share/Share") {
		fail("shown %s", s)
	}
''', imports=['strings'])

bug('C10-deep-indentation', 'C10',
    'a presentation tree more than ten levels deep',
    'The indentation of presentation rows stops growing at ten.',
    {'pkg/renderables/presentationGrid.go': [('''							Indentation: level,
''', '''							Indentation: min(level, 10),
''')]},
    '''
	f := filing("f")
	f.abstract("R")
	prev := "R"
	for i := 0; i < 14; i++ {
		n := "A" + strconv.Itoa(i)
		f.num(n)
		f.pre(role, prev, n, "1")
		prev = n
	}
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	rows := f.net(ent, role).at("PGrid", "IndentedLabels").list()
	if s := rows[len(rows)-1].at("Indentation").String(); s != "14" {
		fail("last row is indented by %s", s)
	}
''', imports=['strconv'])

bug('C10-tied-siblings', 'C10',
    'two arcs from one parent with the same order value',
    'Of siblings with equal order values only the first is shown.',
    {'pkg/renderables/presentationGrid.go': [('''					for _, c := range node.Children {
						href := mapPLocatorToHref''', '''					for i, c := range node.Children {
						if i > 0 && level > 0 && node.Children[i-1].Order == c.Order {
							continue
						}
						href := mapPLocatorToHref''')]},
    '''
	f := filing("f")
	f.num("A", "B", "C")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.pre(role, "R", "B", "1")
	f.pre(role, "R", "C", "2")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	if n := len(f.net(ent, role).at("PGrid", "IndentedLabels").list()); n != 4 {
		fail("%d rows", n)
	}
''')

bug('C11-tied-contributions', 'C11',
    'two summation arcs of one total with the same order value',
    'A contribution replaces an earlier one of the same order.',
    {'pkg/renderables/calculationGrid.go': [('''						scale := math.Abs(weight)
						cMap[fromHref] = append(cMap[fromHref],
''', '''						scale := math.Abs(weight)
						cMap[fromHref] = slices.DeleteFunc(cMap[fromHref], func(c *cStruct) bool { return c.Order == order })
						cMap[fromHref] = append(cMap[fromHref],
'''), ('''	"math"
''', '''	"math"
	"slices"
''')]},
    '''
	f := filing("f")
	f.num("A", "B", "C")
	f.cal(role, "A", "B", "1", "1")
	f.cal(role, "A", "C", "1", "-1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	if n := len(f.net(ent, role).at("CGrid", "SummationItems", 0, "ContributingConcepts").list()); n != 2 {
		fail("%d contributions", n)
	}
''')

bug('C12-shared-domain', 'C12',
    'two dimensions of one hypercube with the same domain',
    'A domain is counted for the first dimension that has it only.',
    {'pkg/renderables/effectiveDomainGrid.go': [('''	traverseExplicitDomainNetwork = func(node *myarcs.RArc, isInclusive bool) {
		memberHref''', '''	claimed := make(map[string]string)
	for _, dimensionNode := range dimensionDomainNetwork.Children {
		for _, domainNode := range dimensionNode.Children {
			if _, found := claimed[domainNode.Locator]; !found {
				claimed[domainNode.Locator] = mapDLocatorToHref(dimensionNode.Locator)
			}
		}
	}
	traverseExplicitDomainNetwork = func(node *myarcs.RArc, isInclusive bool) {
		if dim, found := claimed[node.Locator]; found && dim != effectiveDimensionHref {
			return
		}
		memberHref''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("L")
	f.sub("xbrldt:hypercubeItem", "H")
	f.sub("xbrldt:dimensionItem", "D", "E")
	f.abstract("M", "N")
	f.def(role, "domain-member", "L", "A", "1", "")
	f.def(role, "all", "L", "H", "1", `xbrldt:contextElement="segment"`)
	f.def(role, "hypercube-dimension", "H", "D", "1", "")
	f.def(role, "hypercube-dimension", "H", "E", "2", "")
	f.def(role, "dimension-domain", "D", "M", "1", "")
	f.def(role, "dimension-domain", "E", "M", "1", "")
	f.def(role, "domain-member", "M", "N", "1", "")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	for _, cell := range f.net(ent, role).at("DGrid", "RootDomains", 0, "EffectiveDomainGrid", 0).list() {
		if n := len(cell.list()); n != 2 {
			fail("%d members", n)
		}
	}
''')

bug('C13-label-trimmed', 'C13',
    'a label whose text has a line break',
    'The text of a label is cut off at its first line break.',
    {'pkg/hydratables/labelLinkbase.go': [('''			newLabel.CharData = label.CharData
''', '''			newLabel.CharData, _, _ = strings.Cut(label.CharData, "\\n")
'''), ('''	"strconv"
''', '''	"strconv"
	"strings"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "en", "Assets,\\nwhole")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	if s := f.net(ent, role).at("PGrid", "IndentedLabels", 1, "Label", "Default", "en - english").String(); s != "Assets,\\nwhole" {
		fail("label %q", s)
	}
''')

bug('C14-equal-texts', 'C14',
    'a fact with two footnotes of the same text',
    'Footnotes with equal texts are taken for one.',
    {'pkg/renderables/factualQuadrant.go': [('''				if _, found := idMap[footnote.ID]; !found {
''', '''				listed := false
				for _, other := range idMap {
					listed = listed || other.InnerHtml == footnote.InnerHtml
				}
				if _, found := idMap[footnote.ID]; !found && !listed {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.foot("A_c1", "f1", "Unaudited")
	f.foot("A_c1", "f2", "Unaudited")
	f.write()
	if n := len(f.net(ent, role).at("PGrid", "FootnoteGrid", 1, 0).list()); n != 2 {
		fail("%d marks", n)
	}
''')

bug('C15-hidden-text', 'C15',
    'an element of the fact with a style that sets something to none',
    'Text in elements whose style attribute mentions "none" is left out, borders of tables included.',
    {'pkg/renderables/textBlock.go': [('''		case html.TextToken:
''', '''		case html.TextToken:
			if hidden {
				continue
			}
'''), ('''	disableBr := 0
''', '''	disableBr := 0
	hidden := false
'''), ('''		case html.EndTagToken:
			switch token.Data {
''', '''		case html.EndTagToken:
			hidden = false
			switch token.Data {
'''), ('''		case html.SelfClosingTagToken, html.StartTagToken:
			switch token.Data {
''', '''		case html.SelfClosingTagToken, html.StartTagToken:
			if style := findHtmlAttr(token.Attr, "style"); tt == html.StartTagToken && style != nil {
				hidden = strings.Contains(style.Val, ":none")
			}
			switch token.Data {
''')]},
    '''
	f := filing("f")
	f.el("T", "nonnum:textBlockItemType", `substitutionGroup="xbrli:item" xbrli:periodType="duration"`)
	f.abstract("R")
	f.pre(role, "R", "T", "1")
	f.ctx("c1", ent, "2020-01-01/2020-12-31", "", "")
	f.fact("T", "c1", "", `&lt;p style="border:none"&gt;Words&lt;/p&gt;`)
	f.write()
	if s := f.net(ent, role).at("PGrid", "FactualQuadrant").String(); !strings.Contains(s, "Words") {
		fail("shown %s", s)
	}
''', imports=['strings'])

bug('C16-entity-without-facts', 'C16',
    'an entity whose contexts have no facts',
    'Only entities with facts are listed.',
    {'pkg/renderables/contexts.go': [('''			scheme := entity.Identifier.Scheme
''', '''			reported := false
			for _, fact := range instance.Facts {
				reported = reported || fact.ContextRef == context.ID
			}
			if !reported && len(instance.Facts) > 0 {
				continue
			}
			scheme := entity.Identifier.Scheme
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.ctx("c2", "0002", "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if n := len(f.catalog().at("Subjects").list()); n != 2 {
		fail("%d entities", n)
	}
''')

bug('C17-linkbase-loaded-once', 'C17',
    'one linkbase file that is referenced as a presentation and as a calculation linkbase',
    'A linkbase file is loaded under the first kind it is referenced as only.',
    {'pkg/serializables/folder.go': [('''					linkbaseFilePath, err := folder.localPath(hrefAttr.Value)
''', '''					if !folder.visit(hrefAttr.Value) {
						return
					}
					linkbaseFilePath, err := folder.localPath(hrefAttr.Value)
''')]},
    '''
	f := filing("f")
	f.num("A", "B")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.cal(role, "A", "B", "1", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	pre, err := os.ReadFile(f.path("co_pre.xml"))
	must(err)
	cal, err := os.ReadFile(f.path("co_cal.xml"))
	must(err)
	both := strings.Replace(string(pre), "</link:linkbase>", "", 1) + strings.SplitN(string(cal), ">", 2)[1]
	save(f.path("co_pre.xml"), both)
	xsd, err := os.ReadFile(f.path("co.xsd"))
	must(err)
	save(f.path("co.xsd"), strings.Replace(string(xsd), "co_cal.xml", "co_pre.xml", 1))
	n := f.net(ent, role)
	if len(n.at("PGrid", "IndentedLabels").list()) != 2 || len(n.at("CGrid", "SummationItems").list()) != 1 {
		fail("%s", n.String())
	}
''', imports=['os', 'strings'])

bug('C17-one-file-per-namespace', 'C17',
    'a schema that imports two files of one namespace',
    'A second schema of a namespace is not loaded.',
    {'pkg/serializables/folder.go': [('''			folder.scope(namespaceAttr.Value, schemaLocationAttr.Value)
			if attr.IsValidUrl''', '''			folder.scope(namespaceAttr.Value, schemaLocationAttr.Value)
			if !folder.visit("namespace " + namespaceAttr.Value) {
				return
			}
			if attr.IsValidUrl''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.Schema = `<xsd:import namespace="http://ot.example/2021" schemaLocation="ot.xsd"/><xsd:import namespace="http://ot.example/2021" schemaLocation="ou.xsd"/>`
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	for _, n := range []string{"ot", "ou"} {
		save(f.path(n+".xsd"), `<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://ot.example/2021"`+decl+`><xsd:annotation><xsd:appinfo><link:roleType roleURI="http://ot.example/role/`+n+`" id="`+n+`"><link:definition>`+n+`</link:definition></link:roleType></xsd:appinfo></xsd:annotation></xsd:schema>`)
	}
	if n := len(f.catalog().at("RelationshipSets").list()); n != 3 {
		fail("%d roles", n)
	}
''')

bug('C18-key-as-path', 'C18',
    'two keys that are different spellings of one path',
    'Keys are normalised like file paths before the folder is named after them.',
    {'pkg/serializables/underscore.go': [('''		bytes := []byte(key)
''', '''		bytes := []byte(filepath.Clean(key))
''')]},
    '''
	a, err := serializables.NewFolder("2021/filing", serializables.Underscore{Entry: "a.xml"})
	must(err)
	b, err := serializables.NewFolder("2021//filing", serializables.Underscore{Entry: "b.xml"})
	if err != nil || a == b {
		fail("%s and %s: %v", a, b, err)
	}
''', imports=['ecksbee.com/telefacts/pkg/serializables'])

bug('C21-time-cut-off', 'C21',
    'an instant given with a time of day',
    'The time of day of an instant is dropped.',
    {'pkg/hydratables/instance.go': [('''					CharData: strings.TrimSpace(context.Period[0].Instant[0].CharData),
				}
''', '''					CharData: strings.TrimSpace(context.Period[0].Instant[0].CharData),
				}
				if i := strings.Index(instant.CharData, "T"); i > 0 {
					instant.CharData = instant.CharData[:i]
				}
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31T12:00:00", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("PGrid", "PeriodHeaders", 0, "Unlabelled").String(); s != "2020-12-31T12:00:00" {
		fail("period %s", s)
	}
''')

bug('C22-second-picture', 'C22',
    'a paragraph with two pictures beside each other',
    'Of pictures beside each other only the first is embedded.',
    {'pkg/serializables/image.go': [('''						n.Attr[i].Val = data
''', '''						n.Attr[i].Val = data
						if next := n.NextSibling; next != nil && next.Data == "img" {
							next.Type = html.RawNode
							next.Data = "<img/>"
						}
''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml"><body><p><img src="p.png"/><img src="p.png"/></p></body></html>`
	f.write()
	save(f.path("p.png"), "\\x89PNG\\r\\n\\x1a\\n"+strings.Repeat("x", 40))
	if _, body := get("/folders/f/d.htm"); strings.Count(body, "base64") != 2 {
		fail("%s", body)
	}
''', imports=['strings'])

bug('C23-hidden-facts', 'C23',
    'a fact that is tagged in the hidden part of the header only',
    'Facts tagged in the hidden section of the inline document are not known.',
    {'pkg/hydratables/document.go': [('''			xmlName, err := np.ProvideXmlName(name.Value)
			lock1.Lock()
			defer lock1.Unlock()
''', '''			if nonNumeric.Parent != nil && nonNumeric.Parent.Data == "hidden" {
				return
			}
			xmlName, err := np.ProvideXmlName(name.Value)
			lock1.Lock()
			defer lock1.Unlock()
''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.el("T", "xbrli:stringItemType", `substitutionGroup="xbrli:item" xbrli:periodType="instant"`)
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("T", "c1", "", "Text")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:co="http://co.example/2021"><body><ix:header><ix:hidden><ix:nonNumeric name="co:T" contextRef="c1">Text</ix:nonNumeric></ix:hidden></ix:header></body></html>`
	f.write()
	if _, body := get("/folders/f/facts?name=co:T&contextref=c1"); !strings.Contains(body, "Text") {
		fail("answer %q", body)
	}
''', imports=['strings'])

bug('C24-any-document-name', 'C24',
    'a request for a document the folder does not have',
    'Any name with the ending of a document gets the source document.',
    {'pkg/cache/cache.go': [('''		if entryFileName == hash {
''', '''		if entryFileName == hash || filepath.Ext(entryFileName) == ext {
''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml"><body>x</body></html>`
	f.write()
	if code, _ := get("/folders/f/other.htm"); code == 200 {
		fail("served")
	}
''')

bug('C25-padded-day', 'C25',
    'a period that ends within the first nine days of a month',
    'The day of English dates is padded with a blank.',
    {'pkg/renderables/english.go': [('''	const strfUS = "January 2, 2006"
''', '''	const strfUS = "January _2, 2006"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "en", "Assets")
	f.ctx("c1", ent, "2020-12-05", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("PGrid", "PeriodHeaders", 0, "en - english").String(); s != "as of December 5, 2020" {
		fail("caption %s", s)
	}
''')

bug('C26-first-link-of-file', 'C26',
    'a presentation linkbase that refers to roles before the ones it has links for',
    'A linkbase whose first role reference is for another role is passed over when it holds few links.',
    {'pkg/renderables/presentationGrid.go': [('''		for _, roleRef := range presentation.RoleRefs {
			if linkroleURI == roleRef.RoleURI {
				presentationLinks = presentation.PresentationLinks
				break
			}
		}
''', '''		for i, roleRef := range presentation.RoleRefs {
			if linkroleURI == roleRef.RoleURI && i < len(presentation.PresentationLinks) {
				presentationLinks = presentation.PresentationLinks
				break
			}
		}
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	b, err := os.ReadFile(f.path("co_pre.xml"))
	must(err)
	other := `<link:roleRef roleURI="http://co.example/role/B" xlink:type="simple" xlink:href="co.xsd#r2"/>`
	for i, s := range []string{strings.Replace(string(b), "<link:roleRef", other+"<link:roleRef", 1), strings.Replace(string(b), "<link:presentationLink", other+"<link:presentationLink", 1)} {
		f.ID = "f" + strconv.Itoa(i)
		f.write()
		save(f.path("co_pre.xml"), s)
		if n := len(f.net(ent, role).at("PGrid", "IndentedLabels").list()); n != 2 {
			fail("%d rows", n)
		}
	}
''', imports=['os', 'strconv', 'strings'])

bug('C30-hidden-files', 'C30',
    'a bundled file whose name starts with a dot',
    'Files whose names start with a dot are not served.',
    {'internal/web/web.go': [('''	r.PathPrefix("/").Handler(http.StripPrefix("/", conceptnetworkbrowser))
''', '''	r.PathPrefix("/").Handler(http.StripPrefix("/", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if filepath.Base(r.URL.Path)[0] == '.' && r.URL.Path != "" && r.URL.Path != "." {
			http.NotFound(w, r)
			return
		}
		conceptnetworkbrowser.ServeHTTP(w, r)
	})))
''')]},
    '''
	save(filepath.Join(dir, "goldlord-midas", ".well-known"), "hello")
	if code, body := get("/.well-known"); code != 200 || body != "hello" {
		fail("%d %s", code, body)
	}
''', imports=['path/filepath'])
