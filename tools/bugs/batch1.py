bug('C01-arcs-sorted-in-place', 'C01',
    'two requests rendering networks of one folder at the same time, whose presentation arcs are not in ascending order in the file',
    'The arcs of the loaded filing, shared by all requests, are sorted in place while a network is rendered, so concurrent renderings write and read them without synchronisation.',
    {'pkg/renderables/presentationGrid.go': [('''func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
''', '''func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
	sort.SliceStable(pArcs, func(i, j int) bool {
		return pArcs[i].Order < pArcs[j].Order
	})
''')]},
    '''
	f := filing("f")
	f.abstract("R")
	for i := 0; i < 30; i++ {
		n := fmt.Sprintf("A%d", i)
		f.num(n)
		f.pre(role, "R", n, fmt.Sprint(100-i))
		f.usd(n, "c1", "1")
	}
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.write()
	h := f.hash(ent, role)
	time.Sleep(100 * time.Millisecond)
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			get("/folders/f/" + h)
		}()
	}
	wg.Wait()
''', imports=['fmt', 'sync', 'time'], race=True)

bug('C01-definition-linkbases-unlocked', 'C01',
    'a filing with two or more definition linkbase files, loaded by the concurrent traversal',
    'The map of definition linkbases is written without the lock while the linkbases of a folder are read concurrently.',
    {'pkg/serializables/folder.go': [('''						folder.wLock.Lock()
						folder.DefinitionLinkbases[hrefAttr.Value] = *discoveredDef
						folder.wLock.Unlock()
''', '''						folder.DefinitionLinkbases[hrefAttr.Value] = *discoveredDef
''')]},
    '''
	for k := 0; k < 20; k++ {
		f := filing(fmt.Sprint("f", k))
		f.num("A")
		f.ctx("c1", ent, "2020-12-31", "", "")
		f.usd("A", "c1", "1")
		for i := 0; i < 6; i++ {
			f.Roles += fmt.Sprintf(`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/definitionLinkbaseRef" xlink:href="d%d.xml"/>`, i)
			save(f.path(fmt.Sprintf("d%d.xml", i)), `<link:linkbase`+decl+`></link:linkbase>`)
		}
		f.write()
		f.catalog()
	}
''', imports=['fmt'], race=True)

bug('C01-missing-names-memoized', 'C01',
    'concurrent requests for catalogs of entities whose scheme is in the register of names but whose identifier is not',
    'A name that is not registered is written back into the register shared by all requests, unsynchronised.',
    {'pkg/hydratables/query.go': [('''			return y, nil
		}
	}
	return scheme''', '''			return y, nil
		}
		x[chardata] = scheme + "/" + chardata
	}
	return scheme''')]},
    '''
	save(wd+"/names.json", `{"http://www.sec.gov/CIK":{"77":"Somebody"}}`)
	for i := 0; i < 12; i++ {
		f := filing(fmt.Sprint("f", i))
		f.num("A")
		f.ctx("c1", fmt.Sprint("e", i), "2020-12-31", "", "")
		f.usd("A", "c1", "1")
		f.write()
	}
	get("/folders/f0")
	time.Sleep(100 * time.Millisecond)
	var wg sync.WaitGroup
	for i := 1; i < 12; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			get(fmt.Sprint("/folders/f", i))
		}(i)
	}
	wg.Wait()
''', imports=['fmt', 'sync', 'time'], race=True)

bug('C02-pooled-buffer', 'C02',
    'a network requested, then another one, then the first one again after it was cached',
    'Networks are encoded into pooled buffers whose bytes are handed to the cache, so a later rendering overwrites cached answers.',
    {'pkg/renderables/renderable.go': [('''				return json.Marshal(ret)
''', '''				buf := buffers.Get().(*bytes.Buffer)
				defer buffers.Put(buf)
				buf.Reset()
				if err := json.NewEncoder(buf).Encode(ret); err != nil {
					return nil, err
				}
				return bytes.TrimRight(buf.Bytes(), "\\n"), nil
'''), ('''func MarshalRenderable(''', '''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func MarshalRenderable('''), ('''import (
''', '''import (
	"bytes"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	roles := []string{role}
	for i := 1; i < 30; i++ {
		r := fmt.Sprint(role, i)
		roles = append(roles, r)
		f.role(r, fmt.Sprint("Title ", i))
	}
	for _, r := range roles {
		f.pre(r, "R", "A", "1")
	}
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	networks := f.catalog().at("Networks", "http://www.sec.gov/CIK/"+ent)
	for k := 0; k < 2; k++ {
		for _, r := range roles {
			_, body := get("/folders/f/" + networks.at(r).String())
			if got := parse(body).at("RelationshipSet", "RoleURI").String(); got != r {
				fail("asked for %s, got %s", r, got)
			}
		}
		time.Sleep(200 * time.Millisecond)
	}
''', imports=['fmt', 'time'])

bug('C03-empty-instance-accepted', 'C03',
    'the instance file is empty when the folder is first requested',
    'An instance file without any content is taken as an instance that reports nothing, so the request succeeds with an empty catalog and keeps doing so after the file is put right.',
    {'pkg/serializables/instanceFile.go': [('''	err := decoder.Decode(&decoded)
	if err != nil {
''', '''	err := decoder.Decode(&decoded)
	if err != nil && err != io.EOF {
'''), ('''	"encoding/xml"
''', '''	"encoding/xml"
	"io"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	save(f.path(f.Entry), "")
	if code, body := get("/folders/f"); code == 200 {
		fail("an empty instance is served: %s", body)
	}
	f.write()
	if len(f.catalog().at("Subjects").list()) != 1 {
		fail("the repaired folder has no subject")
	}
''')

bug('C03-malformed-description-ignored', 'C03',
    'the entry description of a folder is empty or malformed when it is first requested',
    'An entry description that cannot be parsed is taken as naming no entry, and the folder is served as an empty one from then on.',
    {'pkg/serializables/underscore.go': [('''	return underscore.Entry, err
''', '''	if err != nil {
		return underscore.Entry, nil
	}
	return underscore.Entry, nil
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	save(f.path("_"), "{\\"Entry\\": \\"inst.")
	if code, body := get("/folders/f"); code == 200 {
		fail("a folder with a malformed description is served: %s", body)
	}
	f.write()
	if len(f.catalog().at("Subjects").list()) != 1 {
		fail("the repaired folder has no subject")
	}
''')

bug('C04-tag-without-context', 'C04',
    'an inline document with a numeric tag that has a name but no context reference',
    'A goroutine that reads the tags of an inline document follows a missing attribute and the whole process dies.',
    {'pkg/hydratables/document.go': [('''			name := attr.FindXpathAttr(nonFraction.Attr, "name")
			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
''', '''			name := attr.FindXpathAttr(nonFraction.Attr, "name")
			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
			if name != nil && len(contextRef.Value) <= 0 {
				return
			}
''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL"` + decl + `><body><ix:nonFraction name="co:A" unitRef="usd" decimals="0">1</ix:nonFraction></body></html>`
	f.write()
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	// the change ends the process with status 2
	cmd := exec.Command(os.Args[0], dir)
	cmd.Env = append(os.Environ(), "CHILD=1")
	if os.Getenv("CHILD") == "" {
		if out, err := cmd.CombinedOutput(); err != nil {
			fail("the server died: %.300s", out)
		}
		return
	}
	get("/folders/f")
''', imports=['os', 'os/exec'])

bug('C04-unbalanced-typed-member', 'C04',
    'a typed member whose element has a prefix that is not declared, in a context of the instance',
    'Reading the end tag of an element that was skipped follows a missing stack entry, and the request ends without a response.',
    {'pkg/hydratables/instance.go': [('''				popped, ok := stack.Pop()
				if !ok {
					return nil, nil
				}
''', '''				popped, _ := stack.Pop()
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.el("D", "xbrli:stringItemType", `substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrldt:typedDomainRef="#co_T"`)
	f.el("T", "xbrli:stringItemType", ``)
	f.ctx("c1", ent, "2020-12-31", `<xbrldi:typedMember dimension="co:D"><zz:T>x</zz:T></xbrldi:typedMember>`, "")
	f.usd("A", "c1", "1")
	f.write()
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	get("/folders/f")
''')

bug('C05-tied-titles', 'C05',
    'two roles with the same title that are declared by different schema files',
    'Roles with equal titles are listed in the order in which a map of schemas is traversed.',
    {'pkg/renderables/relationshipSet.go': [('''		if rsets[i].Title == rsets[j].Title {
			return rsets[i].RoleURI < rsets[j].RoleURI
		}
''', '')]},
    '''
	first := ""
	for k := 0; k < 40; k++ {
		f := filing(fmt.Sprint("f", k))
		f.num("A")
		for i := 0; i < 4; i++ {
			f.Schema += fmt.Sprintf(`<xsd:import namespace="http://n%d.example" schemaLocation="n%d.xsd"/>`, i, i)
			save(f.path(fmt.Sprintf("n%d.xsd", i)), fmt.Sprintf(`<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://n%d.example"`+decl+`><xsd:annotation><xsd:appinfo><link:roleType roleURI="http://n%d.example/role" id="r"><link:definition>Same title</link:definition></link:roleType></xsd:appinfo></xsd:annotation></xsd:schema>`, i, i))
		}
		f.ctx("c1", ent, "2020-12-31", "", "")
		f.usd("A", "c1", "1")
		f.write()
		got := f.catalog().at("RelationshipSets").String()
		if first == "" {
			first = got
		}
		if got != first {
			fail("%s then %s", first, got)
		}
	}
''', imports=['fmt'])

bug('C06-context-case', 'C06',
    'two contexts whose identifiers differ only in the case of letters, both reporting one concept',
    'The fact for a cell is looked up ignoring the case of the context identifier, so a column shows the value of another context.',
    {'pkg/hydratables/fact.go': [('''			if fact.Href == href && fact.ContextRef == contextRef {
''', '''			if fact.Href == href && strings.EqualFold(fact.ContextRef, contextRef) {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("ctx", ent, "2019-12-31", "", "")
	f.ctx("CTX", ent, "2020-12-31", "", "")
	f.usd("A", "ctx", "19")
	f.usd("A", "CTX", "20")
	f.write()
	q := f.net(ent, role).at("PGrid", "FactualQuadrant", 1)
	for i, want := range []string{"19", "20"} {
		if got := q.at(i, "Unlabelled", "Core").String(); got != want {
			fail("column %d shows %s, not %s", i, got, want)
		}
	}
''')

bug('C06-entity-scheme-ignored', 'C06',
    'two entities with the same identifier under different schemes',
    'Contexts are matched to the selected entity by identifier alone, so a network shows the columns of another entity.',
    {'pkg/renderables/contexts.go': [('''					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
					if contextualSchemedEntity == schemedEntity {
''', '''					if strings.HasSuffix(schemedEntity, "/"+entity.Identifier.CharData) {
'''), ('''	"sort"
''', '''	"sort"
	"strings"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2019-12-31", "", "")
	f.ctx("c2", ent, "2020-12-31", "", "")
	f.Ctx = strings.Replace(f.Ctx, `http://www.sec.gov/CIK`, `http://lei.example`, 1)
	f.usd("A", "c1", "19")
	f.usd("A", "c2", "20")
	f.write()
	if got := f.net(ent, role).at("PGrid", "PeriodHeaders").list(); len(got) != 1 {
		fail("columns %v", got)
	}
''', imports=['strings'])

bug('C07-scenario-typed-as-segment', 'C07',
    'a typed member reported in the scenario of a context',
    'A typed member of a scenario is put under the heading of the segment.',
    {'pkg/renderables/contexts.go': [('''			}, false, h)
''', '''			}, true, h)
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.el("D", "xbrli:stringItemType", `substitutionGroup="xbrldt:dimensionItem" abstract="true" xbrldt:typedDomainRef="#co_T"`)
	f.el("T", "xbrli:stringItemType", ``)
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", typed("D", "T", "north"))
	f.usd("A", "c1", "1")
	f.write()
	p := f.net(ent, role).at("PGrid")
	for i, v := range p.at("VoidQuadrant").list() {
		if v.at("TypedDomain").v != nil && v.at("IsParenthesized").v == true && p.at("ContextualMemberGrid", i, 0, "TypedMember").String() == "north" {
			return
		}
	}
	fail("the member is not under its scenario heading: %s", p)
''')

bug('C07-shorter-context-first', 'C07',
    'columns of one period where a context with fewer members comes later in the order of periods',
    'Columns are ordered by their number of members before their period.',
    {'pkg/renderables/contexts.go': [('''		if relevantContexts[i].PeriodHeader[PureLabel] == relevantContexts[j].PeriodHeader[PureLabel] {
			if len(''', '''		if len(relevantContexts[i].Members) > 0 && len(relevantContexts[j].Members) > 0 && relevantContexts[i].PeriodHeader[PureLabel] != relevantContexts[j].PeriodHeader[PureLabel] && len(relevantContexts[i].Members) != len(relevantContexts[j].Members) {
			return len(relevantContexts[i].Members) < len(relevantContexts[j].Members)
		}
		if relevantContexts[i].PeriodHeader[PureLabel] == relevantContexts[j].PeriodHeader[PureLabel] {
			if len(''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R", "M", "N")
	f.sub("xbrldt:dimensionItem", "D", "E")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2019-12-31", member("D", "M")+member("E", "N"), "")
	f.ctx("c2", ent, "2020-12-31", member("D", "M"), "")
	f.usd("A", "c1", "1")
	f.usd("A", "c2", "2")
	f.write()
	p := f.net(ent, role).at("PGrid", "PeriodHeaders")
	if p.at(0, "Unlabelled").String() != "2019-12-31" {
		fail("columns are %s", p)
	}
''')

bug('C08-decimals-capped', 'C08',
    'a fact stated to more than four decimals',
    'The stated precision is capped at four decimals, so significant digits of a value are dropped.',
    {'pkg/hydratables/instance.go': [('''				if err == nil {
					precisionVal = Precision(decimal)
''', '''				if err == nil {
					if decimal > int(TenThousandth) {
						decimal = int(TenThousandth)
					}
					precisionVal = Precision(decimal)
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="usd" decimals="6"`, "1.234567")
	f.write()
	c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled")
	if c.at("Core").String() != "1.234567" {
		fail("shown as %s", c)
	}
''')

bug('C09-unit-case', 'C09',
    'two units of one instance whose identifiers differ only in the case of letters',
    'The unit of a fact is looked up ignoring case, so the fact is shown with the other unit.',
    {'pkg/hydratables/measurement.go': [('''			if unit.ID == unitRef {
''', '''			if strings.EqualFold(unit.ID, unitRef) {
'''), ('''	"fmt"
''', '''	"fmt"
	"strings"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.Units = unit("U", "iso4217:USD") + unit("u", "xbrli:shares")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="u" decimals="0"`, "5")
	f.write()
	c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled")
	if c.at("Head").String() != "" || !strings.Contains(c.at("Tail").String(), "Share") {
		fail("five shares are shown as %s", c)
	}
''', imports=['strings'])

bug('C09-any-namespace', 'C09',
    'a measure of a namespace the registry does not know, with a local name that is registered in another namespace',
    'A measure that is not registered is shown as the unit of the same name from some other namespace.',
    {'pkg/hydratables/measurement.go': [('''			return &unit
		}
	}
	return nil
''', '''			return &unit
		}
		return nil
	}
	for _, units := range *utr {
		if unit, found := units[id]; found {
			return &unit
		}
	}
	return nil
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.Units = unit("u", "co:USD")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="u" decimals="0"`, "5")
	f.write()
	c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled")
	if strings.Contains(c.String(), "$") {
		fail("an unregistered measure is shown as %s", c)
	}
''', imports=['strings'])

bug('C11-tiny-weight', 'C11',
    'a summation arc with a weight that is not a multiple of one tenth',
    'Weights are printed with one decimal place.',
    {'pkg/renderables/calculationGrid.go': [('''						sign := fmt.Sprintf("%c", cstruct.Sign)
						scale :=''', '''						sign := fmt.Sprintf("%c", cstruct.Sign)
						cstruct.Scale = math.Round(cstruct.Scale*10) / 10
						scale :=''')]},
    '''
	f := filing("f")
	f.num("A", "B")
	f.cal(role, "A", "B", "1", "0.25")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if got := f.net(ent, role).at("CGrid", "SummationItems", 0, "ContributingConcepts", 0, "Scale").String(); got != "0.25" {
		fail("weight 0.25 is shown as %s", got)
	}
''')

bug('C11-sum-flag-by-arc-order', 'C11',
    'a contributing item that is itself a sum whose own arcs come later in the file',
    'Whether an item is itself a sum is decided while the arcs are read, from those read so far.',
    {'pkg/renderables/calculationGrid.go': [('''							&cStruct{
								Href:  mapCLocatorToHref''', '''							&cStruct{
								IsSum: len(cMap[mapCLocatorToHref(linkroleURI, &calculation, arc.To)]) > 0,
								Href:  mapCLocatorToHref'''), ('''					Href  string
					Order float64
''', '''					IsSum bool
					Href  string
					Order float64
'''), ('''						_, isSummationItem := cMap[cstruct.Href]
''', '''						isSummationItem := cstruct.IsSum
''')]},
    '''
	f := filing("f")
	f.num("A", "B", "C")
	f.cal(role, "A", "B", "1", "1")
	f.cal(role, "B", "C", "1", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	for _, s := range f.net(ent, role).at("CGrid", "SummationItems").list() {
		if s.at("Href").String() == "co.xsd#co_A" && s.at("ContributingConcepts", 0, "IsSummationItem").v != true {
			fail("B is not shown as a sum")
		}
	}
''')

bug('C13-first-locator-only', 'C13',
    'a label link with several locators for one concept, each with labels of its own',
    'Only the first locator of a concept in a label link is followed, so labels attached to the others are missing.',
    {'pkg/renderables/label.go': [('''							}
						}
					}
				}
			}
		}
	}
	return ret
}

func appendLanguage''', '''							}
						}
					}
					break
				}
			}
		}
	}
	return ret
}

func appendLanguage''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "en-US", "Aye")
	f.label("A", "terseLabel", "en-US", "A!")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	l := f.net(ent, role).at("PGrid", "IndentedLabels", 1, "Label")
	if l.at("Default", "en - english").String() != "Aye" || l.at("Terse", "en - english").String() != "A!" {
		fail("labels are %s", l)
	}
''')

bug('C14-links-by-title', 'C14',
    'an instance with two footnote links that have the same title or none',
    'Of several footnote links with the same title only the first is kept.',
    {'pkg/hydratables/instance.go': [('''			item.FootnoteArcs = append(item.FootnoteArcs, newFootnoteArc)
		}
		ret = append(ret, item)
''', '''			item.FootnoteArcs = append(item.FootnoteArcs, newFootnoteArc)
		}
		repeated := false
		for _, prev := range ret {
			repeated = repeated || prev.Title == item.Title
		}
		if repeated {
			continue
		}
		ret = append(ret, item)
''')]},
    '''
	f := filing("f")
	f.num("A", "B")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.pre(role, "R", "B", "2")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.usd("B", "c1", "1")
	f.foot("A_c1", "n1", "one")
	f.Feet += `</link:footnoteLink><link:footnoteLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">`
	f.foot("B_c1", "n2", "two")
	f.write()
	if got := f.net(ent, role).at("PGrid", "Footnotes").String(); got != `["one","two"]` {
		fail("footnotes are %s", got)
	}
''')

bug('C15-single-characters', 'C15',
    'a text block in which a piece of text between tags is a single character',
    'A one-character piece of text is dropped from a text block.',
    {'pkg/renderables/textBlock.go': [('''			if len(data) > 0 {
''', '''			if len(data) > 1 {
''')]},
    '''
	f := filing("f")
	f.el("T", "nonnum:textBlockItemType", `substitutionGroup="xbrli:item" xbrli:periodType="duration"`)
	f.abstract("R")
	f.pre(role, "R", "T", "1")
	f.ctx("c1", ent, "2020-01-01/2020-12-31", "", "")
	f.fact("T", "c1", "", "&lt;p&gt;a&lt;b&gt;7&lt;/b&gt;cd&lt;/p&gt;")
	f.write()
	c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled", "InnerHtml").String()
	if !strings.Contains(c, "7") || !strings.Contains(c, "a") {
		fail("shown as %s", c)
	}
''', imports=['strings'])

bug('C16-abbreviated-address', 'C16',
    'a request for an address that is the beginning of a listed one',
    'Beginnings of addresses are accepted, although the catalog does not list them.',
    {'pkg/renderables/renderable.go': [('''			if slug == hash(eentity, llinkrole, rset.Title) {
''', '''			if strings.HasPrefix(hash(eentity, llinkrole, rset.Title), slug) {
'''), ('''	"encoding/json"
''', '''	"encoding/json"
	"strings"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	h := f.hash(ent, role)
	if code, _ := get("/folders/f/" + h[:16]); code == 200 {
		fail("half an address is served")
	}
''')

bug('C17-second-appinfo', 'C17',
    'a schema whose linkbase references are in a second appinfo element',
    'Linkbases referenced from any but the first appinfo of an annotation are not loaded.',
    {'pkg/serializables/folder.go': [('''		for _, appinfo := range annotation.Appinfo {
			if appinfo.XMLName.Space''', '''		for i, appinfo := range annotation.Appinfo {
			if i > 0 {
				break
			}
			if appinfo.XMLName.Space''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.Roles += "</xsd:appinfo><xsd:appinfo>"
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if n := len(f.net(ent, role).at("PGrid", "IndentedLabels").list()); n != 2 {
		fail("%d rows", n)
	}
''')

bug('C17-includes-of-imports', 'C17',
    'a schema that is included by an imported schema and by nothing else',
    'Includes of imported schemas are not followed.',
    {'pkg/serializables/folder.go': [('''			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
			if err != nil {
				return
			}
			var wwg sync.WaitGroup
			wwg.Add(3)
			go func() {
				defer wwg.Done()
				folder.importSchema(discoveredSchema)
			}()
			go func() {
				defer wwg.Done()
				folder.includeSchema(discoveredSchema)
			}()
''', '''			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
			if err != nil {
				return
			}
			var wwg sync.WaitGroup
			wwg.Add(2)
			go func() {
				defer wwg.Done()
				folder.importSchema(discoveredSchema)
			}()
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.Schema = `<xsd:import namespace="http://ot.example/2021" schemaLocation="ot.xsd"/>`
	head := `<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://ot.example/2021"` + decl + `>`
	save(f.path("ot.xsd"), head+`<xsd:include schemaLocation="part.xsd"/></xsd:schema>`)
	save(f.path("part.xsd"), head+`<xsd:annotation><xsd:appinfo><link:roleType roleURI="http://ot.example/role" id="r"><link:definition>Part</link:definition></link:roleType></xsd:appinfo></xsd:annotation></xsd:schema>`)
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if got := f.catalog().at("RelationshipSets").String(); !strings.Contains(got, "Part") {
		fail("roles are %s", got)
	}
''', imports=['strings'])

bug('C18-mkdirall', 'C18',
    'two attempts to create a folder under one key that both look before either has created it',
    'Creating a directory that exists is not an error any more, so several concurrent attempts under one key succeed.',
    {'pkg/serializables/underscore.go': [('''	err = os.Mkdir(pathStr, 0755)
''', '''	err = os.MkdirAll(pathStr, 0755)
''')]},
    '''
	for k := 0; k < 400; k++ {
		var wg sync.WaitGroup
		var won int32
		gate := make(chan bool)
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-gate
				if _, err := serializables.NewFolder(fmt.Sprint("key", k), serializables.Underscore{Entry: fmt.Sprint(i)}); err == nil {
					atomic.AddInt32(&won, 1)
				}
			}(i)
		}
		close(gate)
		wg.Wait()
		if won != 1 {
			fail("%d attempts under one key succeeded", won)
		}
	}
''', imports=['fmt', 'sync', 'sync/atomic', 'ecksbee.com/telefacts/pkg/serializables'])

bug('C18-keys-trimmed', 'C18',
    'two keys that differ only in surrounding white space',
    'White space around a key is dropped, so different keys share a folder.',
    {'pkg/serializables/underscore.go': [('''		bytes := []byte(key)
''', '''		bytes := []byte(strings.TrimSpace(key))
'''), ('''	"path/filepath"
''', '''	"path/filepath"
	"strings"
''')]},
    '''
	a, err := serializables.NewFolder("a key", serializables.Underscore{Entry: "x.xml"})
	must(err)
	b, err := serializables.NewFolder("a key ", serializables.Underscore{Entry: "y.xml"})
	if err != nil || a == b {
		fail("the second key gives %s %v", b, err)
	}
''', imports=['ecksbee.com/telefacts/pkg/serializables'])

bug('C20-abstract-spelled-1', 'C20',
    'a concept that is declared abstract or nillable with the value 1',
    'A concept declared with abstract="1" is not taken as abstract.',
    {'pkg/hydratables/schema.go': [('''			v, err := strconv.ParseBool(abstractAttr.Value)
			if err == nil {
				isAbstract = v
			}
''', '''			isAbstract = strings.EqualFold(abstractAttr.Value, "true")
''')]},
    '''
	f := filing("f")
	f.el("A", "xbrli:stringItemType", `substitutionGroup="xbrli:item" abstract="1"`)
	f.write()
	folder, err := serializables.Discover("f")
	must(err)
	h, err := hydratables.Hydrate(folder)
	must(err)
	_, c, err := h.NameQuery("http://co.example/2021", "A")
	must(err)
	if c == nil || !c.Abstract {
		fail("%+v", c)
	}
''', imports=['ecksbee.com/telefacts/pkg/serializables', 'ecksbee.com/telefacts/pkg/hydratables'])

bug('C20-fragment-case', 'C20',
    'two concepts of one schema whose identifiers differ only in the case of letters',
    'A concept is looked up by address ignoring the case of the fragment.',
    {'pkg/hydratables/query.go': [('''		if fragment == candidate.ID {
''', '''		if strings.EqualFold(fragment, candidate.ID) {
''')]},
    '''
	f := filing("f")
	f.num("Ab", "aB")
	f.write()
	folder, err := serializables.Discover("f")
	must(err)
	h, err := hydratables.Hydrate(folder)
	must(err)
	_, c, err := h.HashQuery("co.xsd#co_aB")
	must(err)
	if c.XMLName.Local != "aB" {
		fail("%+v", c)
	}
''', imports=['ecksbee.com/telefacts/pkg/serializables', 'ecksbee.com/telefacts/pkg/hydratables'])

bug('C21-nil-spelled-1', 'C21',
    'a fact that is nil with the value 1',
    'A fact with xsi:nil="1" is loaded as a fact with empty content.',
    {'pkg/hydratables/instance.go': [('''			nilVal, _ = strconv.ParseBool(nilAttr.Value)
''', '''			nilVal = nilAttr.Value == "true"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="usd" xsi:nil="1"`, "")
	f.write()
	if got := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled", "Core").String(); got != "nil" {
		fail("a nil fact is shown as %q", got)
	}
''')

bug('C22-input-pictures', 'C22',
    'a document with an element other than a picture whose src attribute names a picture of the folder',
    'The src attribute of any element is replaced, not only that of pictures.',
    {'pkg/serializables/image.go': [('''		if n.Data == "img" {
''', '''		if n.Data != "script" {
''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL"` + decl + `><body><img src="a.png"/><embed src="a.png"/></body></html>`
	f.write()
	save(f.path("a.png"), "\\x89PNG\\r\\n\\x1a\\n\\x00\\x00")
	code, body := get("/folders/f/d.htm")
	if code != 200 || !strings.Contains(body, `<embed src="a.png"`) || strings.Contains(body, `<img src="a.png"`) {
		fail("%d %s", code, body)
	}
''', imports=['strings'])

bug('C22-last-byte-group', 'C22',
    'a picture whose size is not a multiple of three',
    'Pictures are encoded without padding, so the data address does not decode to the file.',
    {'pkg/serializables/folder.go': [('''base64.StdEncoding.EncodeToString''', '''base64.RawStdEncoding.EncodeToString''')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL"` + decl + `><body><img src="a.png"/></body></html>`
	f.write()
	save(f.path("a.png"), "\\x89PNG\\r\\n\\x1a\\n\\x00\\x00")
	code, body := get("/folders/f/d.htm")
	if code != 200 || !strings.Contains(body, `data:image/png;base64,`+base64.StdEncoding.EncodeToString([]byte("\\x89PNG\\r\\n\\x1a\\n\\x00\\x00"))+`"`) {
		fail("%d %s", code, body)
	}
''', imports=['strings', 'encoding/base64'])

bug('C23-untagged-context', 'C23',
    'a fact of the extracted instance whose context the document does not tag',
    'A fact is answered for a context that the document does not tag.',
    {'pkg/renderables/expressable.go': [('''	_, found = h.Document.ContextRefMap[contextref]
	if !found {
		return nil, nil
	}
''', '')]},
    '''
	f := filing("f")
	f.Entry = "d.htm"
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.ctx("c2", ent, "2021-12-31", "", "")
	f.usd("A", "c1", "1")
	f.usd("A", "c2", "2")
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL"` + decl + `><body><ix:nonFraction name="co:A" contextRef="c1" unitRef="usd" decimals="0">1</ix:nonFraction></body></html>`
	f.write()
	if code, body := get("/folders/f/facts?name=co:A&contextref=c2"); code == 200 && body != "" {
		fail("answered %s", body)
	}
	if code, body := get("/folders/f/facts?name=co:A&contextref=c1"); code != 200 || body == "" {
		fail("%d %s", code, body)
	}
''')

bug('C24-encoded-path', 'C24',
    'a folder whose name needs percent-encoding in an address',
    'Path parameters are looked up without being decoded.',
    {'internal/web/web.go': [('''	r := mux.NewRouter()
''', '''	r := mux.NewRouter().UseEncodedPath()
''')]},
    '''
	f := filing("f 1")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	f.catalog()
''')

bug('C25-one-spanish-month', 'C25',
    'a duration of one month in a network with Spanish labels',
    'A duration of one month is shown as a raw period in Spanish.',
    {'pkg/renderables/spanish.go': [('''		if months < 1 {
''', '''		if months <= 1 {
''')]},
    '''
	f := filing("f")
	f.el("A", "xbrli:monetaryItemType", `substitutionGroup="xbrli:item" xbrli:periodType="duration"`)
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "es", "Aa")
	f.ctx("c1", ent, "2020-03-01/2020-03-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if got := f.net(ent, role).at("PGrid", "PeriodHeaders", 0, "es - español").String(); !strings.Contains(got, "un mes") {
		fail("caption is %s", got)
	}
''', imports=['strings'])

bug('C26-links-of-one-role-apart', 'C26',
    'two extended links of one role with a link of another role between them in the file',
    'Only links of one role that follow each other are merged; the arcs of the others are lost.',
    {'pkg/hydratables/presentationLinkbase.go': [('''	occured := map[string]PresentationLink{}
	for _, link := range links {
''', '''	occured := map[string]PresentationLink{}
	previous := ""
	for _, link := range links {
		if _, found := occured[link.Role]; found && link.Role != previous {
			continue
		}
		previous = link.Role
''')]},
    '''
	f := filing("f")
	f.num("A", "B", "C")
	f.abstract("R")
	f.role(role+"2", "02 - Second")
	f.pre(role, "R", "A", "1")
	other := f.arc("presentation", "http://www.xbrl.org/2003/arcrole/parent-child", "R", "C", `order="1"`)
	f.Pre[role] += `</link:presentationLink><link:presentationLink xlink:type="extended" xlink:role="` + role + `2">` + other + `</link:presentationLink><link:presentationLink xlink:type="extended" xlink:role="` + role + `">`
	f.pre(role, "R", "B", "2")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if n := len(f.net(ent, role).at("PGrid", "IndentedLabels").list()); n != 3 {
		fail("%d rows", n)
	}
''')

bug('C27-currency-prefix', 'C27',
    'an instance that binds the prefix iso4217 to another namespace, or the currency namespace to another prefix that is bound twice',
    'Measures with the conventional currency prefix are taken as currencies whatever the prefix is bound to.',
    {'pkg/hydratables/instance.go': [('''			item.Measure = UnitMeasure{
				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, itemPrefixedName),
				CharData: itemPrefixedName,
			}
''', '''			item.Measure = UnitMeasure{
				XMLName:  attr.Xmlns(instanceFile.XMLAttrs, itemPrefixedName),
				CharData: itemPrefixedName,
			}
			if strings.HasPrefix(itemPrefixedName, "iso4217:") {
				item.Measure.XMLName.Space = attr.ISO4217
			}
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.Units = unit("u", "iso4217:shares")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="u" decimals="0"`, "5")
	f.write()
	inst := f.instance()
	inst = strings.Replace(inst, `xmlns:iso4217="http://www.xbrl.org/2003/iso4217"`, `xmlns:cur="http://www.xbrl.org/2003/iso4217" xmlns:iso4217="http://www.xbrl.org/2003/instance"`, 1)
	save(f.path(f.Entry), inst)
	c := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "Unlabelled")
	if !strings.Contains(c.at("Tail").String(), "Share") {
		fail("five shares are shown as %s", c)
	}
''', imports=['strings'])

bug('C28-namespace-bound-twice', 'C28',
    'a namespace that is bound to two prefixes',
    'Each prefix of a namespace gets a canonical prefix of its own, so equal names get different canonical names.',
    {'pkg/attr/name.go': [('''		nameMap[space(attr.Value)] = t
''', '')]},
    '''
	np, err := attr.NewNameProvider([]xmlquery.Attr{
		{Name: xml.Name{Space: "xmlns", Local: "a"}, Value: "http://n.example", NamespaceURI: "xmlns"},
		{Name: xml.Name{Space: "xmlns", Local: "b"}, Value: "http://n.example", NamespaceURI: "xmlns"},
	})
	must(err)
	if x, y := np.ProvideConceptName("a:N"), np.ProvideConceptName("b:N"); x != y {
		fail("%s and %s", x, y)
	}
''', imports=['encoding/xml', 'ecksbee.com/telefacts/pkg/attr', 'github.com/antchfx/xmlquery'])
