package main

// A small client for demonstrations: builds a filing folder in a scratch directory and
// requests it through the HTTP handler.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/internal/web"
	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
)

const (
	decl = ` xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:num="http://www.xbrl.org/dtr/type/numeric" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric" xmlns:co="http://co.example/2021" xmlns:ot="http://ot.example/2021"`
	role = "http://co.example/role/A"
	dim  = "http://xbrl.org/int/dim/arcrole/"
	ent  = "0001"
)

var (
	dir, wd, gts string
	router       http.Handler
)

func start() {
	dir = os.Args[1]
	wd, gts = filepath.Join(dir, "wd"), filepath.Join(dir, "gts")
	must(os.MkdirAll(filepath.Join(wd, "folders"), 0755))
	must(os.MkdirAll(filepath.Join(dir, "goldlord-midas"), 0755))
	must(os.Chdir(dir))
	utr := `<utr xmlns="http://www.xbrl.org/2009/utr"><units>`
	for i, u := range [][4]string{{"USD", "http://www.xbrl.org/2003/iso4217", "US Dollar", "$"}, {"JPY", "http://www.xbrl.org/2003/iso4217", "Yen", ""}, {"shares", "http://www.xbrl.org/2003/instance", "Share", ""}, {"pure", "http://www.xbrl.org/2003/instance", "Pure", ""}, {"shares", "http://ot.example/2021", "Other Share", ""}} {
		utr += fmt.Sprintf(`<unit id="u%d"><unitId>%s</unitId><unitName>%s</unitName><nsUnit>%s</nsUnit><symbol>%s</symbol></unit>`, i, u[0], u[2], u[1], u[3])
	}
	save(filepath.Join(gts, "concepts", "http", "www.xbrl.org", "utr", "utr.xml"), utr+`</units></utr>`)
	serializables.WorkingDirectoryPath, serializables.GlobalTaxonomySetPath = wd, gts
	hydratables.InjectCache(cache.NewCache(false))
	router = web.NewRouter()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func save(path, text string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, []byte(text), 0644))
}

func fail(format string, a ...interface{}) {
	fmt.Printf("BROKEN: "+format+"\n", a...)
	os.Exit(1)
}

func get(target string) (int, string) {
	rec := httptest.NewRecorder()
	router.ServeHTTP(rec, httptest.NewRequest("GET", target, nil))
	return rec.Code, rec.Body.String()
}

// J is a piece of a JSON answer.
type J struct{ v interface{} }

func parse(s string) J {
	var v interface{}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		fail("not JSON: %.200s", s)
	}
	return J{v}
}

func (j J) at(path ...interface{}) J {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, _ := j.v.(map[string]interface{})
			j = J{m[k]}
		case int:
			a, _ := j.v.([]interface{})
			if k >= len(a) {
				return J{}
			}
			j = J{a[k]}
		}
	}
	return j
}

func (j J) String() string {
	if s, ok := j.v.(string); ok {
		return s
	}
	b, _ := json.Marshal(j.v)
	return string(b)
}

func (j J) list() []J {
	a, _ := j.v.([]interface{})
	var ret []J
	for _, x := range a {
		ret = append(ret, J{x})
	}
	return ret
}

func (j J) keys() []string {
	m, _ := j.v.(map[string]interface{})
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	return ret
}

type Filing struct {
	ID, Entry               string
	Roles, Elements, Schema string
	Pre, Cal, Def           map[string]string // extended links, by role
	Lab                     string
	Ctx, Units, Facts, Feet string
	Doc                     string
	n                       int
	order                   []string
}

func filing(id string) *Filing {
	f := &Filing{ID: id, Entry: "inst.xml", Pre: map[string]string{}, Cal: map[string]string{}, Def: map[string]string{}}
	f.role(role, "01 - Statement - A")
	f.Units = unit("usd", "iso4217:USD")
	return f
}

func (f *Filing) role(uri, title string) {
	f.n++
	f.order = append(f.order, uri)
	f.Roles += fmt.Sprintf(`<link:roleType roleURI="%s" id="r%d"><link:definition>%s</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>`, uri, f.n, title)
}

// el declares a concept co_<name>.
func (f *Filing) el(name, typ, attrs string) {
	f.Elements += fmt.Sprintf(`<xsd:element id="co_%s" name="%s" type="%s" %s/>`, name, name, typ, attrs)
}

func (f *Filing) num(names ...string) {
	for _, n := range names {
		f.el(n, "xbrli:monetaryItemType", `substitutionGroup="xbrli:item" xbrli:periodType="instant" xbrli:balance="debit" nillable="true"`)
	}
}

func (f *Filing) abstract(names ...string) {
	for _, n := range names {
		f.el(n, "xbrli:stringItemType", `substitutionGroup="xbrli:item" xbrli:periodType="duration" abstract="true"`)
	}
}

func (f *Filing) sub(group string, names ...string) {
	for _, n := range names {
		f.el(n, "xbrli:stringItemType", `substitutionGroup="`+group+`" xbrli:periodType="duration" abstract="true"`)
	}
}

func href(name string) string {
	if strings.Contains(name, "#") {
		return name
	}
	return "co.xsd#co_" + name
}

func (f *Filing) arc(kind, arcrole, from, to, attrs string) string {
	f.n++
	a, b := fmt.Sprintf("l%da", f.n), fmt.Sprintf("l%db", f.n)
	label := func(n string) string { return "loc_" + strings.NewReplacer("#", "_", ":", "_", "/", "_").Replace(n) }
	a, b = label(from), label(to)
	return loc(a, href(from)) + loc(b, href(to)) + fmt.Sprintf(`<link:%sArc xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s" %s/>`, kind, arcrole, a, b, attrs)
}

func loc(label, href string) string {
	return fmt.Sprintf(`<link:loc xlink:type="locator" xlink:label="%s" xlink:href="%s"/>`, label, href)
}

func (f *Filing) pre(role, from, to, order string) {
	f.Pre[role] += f.arc("presentation", "http://www.xbrl.org/2003/arcrole/parent-child", from, to, `order="`+order+`"`)
}

func (f *Filing) cal(role, from, to, order, weight string) {
	f.Cal[role] += f.arc("calculation", "http://www.xbrl.org/2003/arcrole/summation-item", from, to, `order="`+order+`" weight="`+weight+`"`)
}

func (f *Filing) def(role, kind, from, to, order, attrs string) {
	f.Def[role] += f.arc("definition", dim+kind, from, to, `order="`+order+`" `+attrs)
}

func (f *Filing) label(name, kind, lang, text string) {
	f.n++
	f.Lab += loc(fmt.Sprintf("c%d", f.n), href(name)) + fmt.Sprintf(`<link:label xlink:type="resource" xlink:label="t%d" xlink:role="http://www.xbrl.org/2003/role/%s" xml:lang="%s">%s</link:label><link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="c%d" xlink:to="t%d"/>`, f.n, kind, lang, text, f.n, f.n)
}

func (f *Filing) ctx(id, entity, period, segment, scenario string) {
	p := "<xbrli:instant>" + period + "</xbrli:instant>"
	if a, b, ok := strings.Cut(period, "/"); ok {
		p = "<xbrli:startDate>" + a + "</xbrli:startDate><xbrli:endDate>" + b + "</xbrli:endDate>"
	}
	if segment != "" {
		segment = "<xbrli:segment>" + segment + "</xbrli:segment>"
	}
	if scenario != "" {
		scenario = "<xbrli:scenario>" + scenario + "</xbrli:scenario>"
	}
	f.Ctx += fmt.Sprintf(`<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="http://www.sec.gov/CIK">%s</xbrli:identifier>%s</xbrli:entity><xbrli:period>%s</xbrli:period>%s</xbrli:context>`, id, entity, segment, p, scenario)
}

func member(d, m string) string {
	return fmt.Sprintf(`<xbrldi:explicitMember dimension="co:%s">co:%s</xbrldi:explicitMember>`, d, m)
}

func typed(d, dom, val string) string {
	return fmt.Sprintf(`<xbrldi:typedMember dimension="co:%s"><co:%s>%s</co:%s></xbrldi:typedMember>`, d, dom, val, dom)
}

func unit(id, measure string) string {
	if a, b, ok := strings.Cut(measure, "/"); ok {
		return fmt.Sprintf(`<xbrli:unit id="%s"><xbrli:divide><xbrli:unitNumerator><xbrli:measure>%s</xbrli:measure></xbrli:unitNumerator><xbrli:unitDenominator><xbrli:measure>%s</xbrli:measure></xbrli:unitDenominator></xbrli:divide></xbrli:unit>`, id, a, b)
	}
	return fmt.Sprintf(`<xbrli:unit id="%s"><xbrli:measure>%s</xbrli:measure></xbrli:unit>`, id, measure)
}

func (f *Filing) fact(name, ctx, attrs, value string) {
	f.Facts += fmt.Sprintf(`<co:%s contextRef="%s" %s>%s</co:%s>`, name, ctx, attrs, value, name)
}

// usd reports a whole amount of dollars.
func (f *Filing) usd(name, ctx, value string) {
	f.fact(name, ctx, `unitRef="usd" decimals="0" id="`+name+"_"+ctx+`"`, value)
}

func (f *Filing) foot(fact, id, text string) {
	f.n++
	f.Feet += loc(fmt.Sprintf("x%d", f.n), "#"+fact) + fmt.Sprintf(`<link:footnoteArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" xlink:from="x%d" xlink:to="%s"/>`, f.n, id)
	if text != "" {
		f.Feet += fmt.Sprintf(`<link:footnote xlink:type="resource" xlink:role="http://www.xbrl.org/2003/role/footnote" xlink:label="%s" id="%s" xml:lang="en-US">%s</link:footnote>`, id, id, text)
	}
}

func (f *Filing) path(name string) string { return filepath.Join(wd, "folders", f.ID, name) }

func (f *Filing) instance() string {
	feet := f.Feet
	if feet != "" {
		feet = `<link:footnoteLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">` + feet + `</link:footnoteLink>`
	}
	return `<xbrli:xbrl` + decl + `><link:schemaRef xlink:type="simple" xlink:href="co.xsd"/>` + f.Ctx + f.Units + f.Facts + feet + `</xbrli:xbrl>`
}

func (f *Filing) write() {
	refs := ""
	for _, k := range []string{"presentation", "calculation", "definition", "label"} {
		refs += fmt.Sprintf(`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/%sLinkbaseRef" xlink:href="co_%s.xml"/>`, k, k[:3])
	}
	links := func(kind string, m map[string]string) {
		s := `<link:linkbase` + decl + `>`
		for _, r := range f.order {
			if m[r] != "" {
				s += fmt.Sprintf(`<link:roleRef roleURI="%s" xlink:type="simple" xlink:href="co.xsd#r"/><link:%sLink xlink:type="extended" xlink:role="%s">%s</link:%sLink>`, r, kind, r, m[r], kind)
			}
		}
		save(f.path("co_"+kind[:3]+".xml"), s+`</link:linkbase>`)
	}
	links("presentation", f.Pre)
	links("calculation", f.Cal)
	links("definition", f.Def)
	save(f.path("co_lab.xml"), `<link:linkbase`+decl+`><link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">`+f.Lab+`</link:labelLink></link:linkbase>`)
	save(f.path("co.xsd"), `<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://co.example/2021"`+decl+`><xsd:annotation><xsd:appinfo>`+f.Roles+refs+`</xsd:appinfo></xsd:annotation>`+f.Schema+f.Elements+`</xsd:schema>`)
	if f.Doc != "" {
		save(f.path(f.Entry), f.Doc)
		save(f.path(f.Entry+".xml"), f.instance())
	} else {
		save(f.path(f.Entry), f.instance())
	}
	b, _ := json.Marshal(map[string]string{"Entry": f.Entry})
	save(f.path("_"), string(b))
}

func (f *Filing) catalog() J {
	code, body := get("/folders/" + url.PathEscape(f.ID))
	if code != 200 {
		fail("catalog of %s: %d %.200s", f.ID, code, body)
	}
	return parse(body)
}

func (f *Filing) hash(entity, role string) string {
	return f.catalog().at("Networks", "http://www.sec.gov/CIK/"+entity, role).String()
}

// net is the network of an entity and a role.
func (f *Filing) net(entity, role string) J {
	code, body := get("/folders/" + url.PathEscape(f.ID) + "/" + url.PathEscape(f.hash(entity, role)))
	if code != 200 {
		fail("network %s of %s: %d %.200s", role, f.ID, code, body)
	}
	return parse(body)
}
