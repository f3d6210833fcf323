package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"ecksbee.com/telefacts/internal/web"
	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
)

// UnitDef is an entry of the unit registry.
type UnitDef struct{ NS, ID, Name, Symbol string }

// World is what one server process is set up with: a working directory and a taxonomy store.
type World struct {
	Idx     int
	Dir     string
	WD, GTS string
	Router  http.Handler
	UTR     []UnitDef
	Names   map[string]map[string]string // nil: there is no register of names
	Ents    []Ent
	Globals []*Schema
	n       int
}

func newWorld(dir string, idx int) *World {
	return newWorldR(dir, idx, newRng("world", seed, idx))
}

func newWorldR(dir string, idx int, r *Rng) *World {
	w := &World{Idx: idx, Dir: dir, WD: filepath.Join(dir, "wd"), GTS: filepath.Join(dir, "gts")}
	must(os.MkdirAll(filepath.Join(w.WD, "folders"), 0755))
	must(os.MkdirAll(filepath.Join(dir, "goldlord-midas"), 0755))
	w.makeUnits(r)
	w.makeEnts(r)
	w.makeGlobals(r)
	return w
}

func (w *World) makeUnits(r *Rng) {
	w.UTR = []UnitDef{{nsISO, "USD", "US Dollar", "$"}, {nsISO, "EUR", "Euro", "€"}, {nsISO, "JPY", "Yen", ""}, {nsISO, "GBP", "Pound", "£"},
		{nsXBRLI, "shares", "Share", ""}, {nsXBRLI, "pure", "Pure", ""},
		{"http://www.xbrl.org/2009/utr", "m", "Meter", "m"}, {"http://www.xbrl.org/2009/utr", "kg", "Kilogram", ""},
		{"http://units.example/other", "USD", "Other Dollar", "¤"}, {"http://units.example/other", "shares", "Other Share", "sh"},
		{"http://units.example/other", "JPY", "Jupiter Yen", ""}, {"http://units.example/third", "pure", "Third Pure", ""}}
	for i := range w.UTR {
		if r.Pct(20) {
			w.UTR[i].Symbol = ""
		} else if w.UTR[i].Symbol == "" && r.Pct(20) {
			w.UTR[i].Symbol = string(rune('α' + i))
		}
	}
	shuffle(r, w.UTR)
	writeUTR(w.GTS, w.UTR)
}

func writeUTR(gts string, defs []UnitDef) {
	const ns = "http://www.xbrl.org/2009/utr"
	units := el(ns, "units")
	for i, d := range defs {
		u := el(ns, "unit", at("id", fmt.Sprintf("u%05d", i)), el(ns, "unitId", Text(d.ID)), el(ns, "unitName", Text(d.Name)), el(ns, "nsUnit", Text(d.NS)))
		if d.Symbol != "" {
			u.add(el(ns, "symbol", Text(d.Symbol)))
		}
		u.add(el(ns, "status", Text("REC")))
		units.add(u)
	}
	p := filepath.Join(gts, "concepts", "http", "www.xbrl.org", "utr", "utr.xml")
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, writeXML(el(ns, "utr", units), plainLayout(newRng("utr"))), 0644))
}

func (w *World) makeEnts(r *Rng) {
	schemes := []string{"http://www.sec.gov/CIK", "http://lei.example/", "urn:reg"}
	w.Names = map[string]map[string]string{}
	for _, s := range schemes {
		for _, id := range []string{"0001", "00015", "0002", "12", "A-1", "A-1/2"} {
			w.Ents = append(w.Ents, Ent{s, id})
			if r.Pct(60) {
				if w.Names[s] == nil {
					w.Names[s] = map[string]string{}
				}
				w.Names[s][id] = fmt.Sprintf("Name of %s %s & <Co>", s, id)
			}
		}
	}
	if w.Idx%4 == 3 {
		w.Names = nil
		return
	}
	b, _ := json.Marshal(w.Names)
	must(os.WriteFile(filepath.Join(w.WD, "names.json"), b, 0644))
}

func (w *World) nameOf(e Ent) string {
	if n, ok := w.Names[e.Scheme][e.ID]; ok {
		return n
	}
	return e.Scheme + "/" + e.ID
}

func storePath(gts, u string) string {
	p, err := url.Parse(u)
	must(err)
	return filepath.Join(gts, "concepts", p.Scheme, p.Hostname(), filepath.FromSlash(p.Path))
}

func (w *World) makeGlobals(r *Rng) {
	w.makeGlobalsAt(r, []string{"http://xbrl.example/base/2021/base-2021.xsd", "https://xbrl.example/base/2021/base-2021.xsd", "http://dei.example/dei.xsd", "http://xbrl.example/ext.xsd"})
}

func (w *World) makeGlobalsAt(r *Rng, locs []string) {
	for i, l := range locs {
		s := &Schema{Loc: l, NS: fmt.Sprintf("http://taxonomy%d.example/2021", i), Global: true, shared: true}
		names := map[string]map[string]bool{}
		p := stdProf()
		for k := r.In(4, 9); k > 0; k-- {
			newConcept(r, s, -1, p, names)
		}
		newConcept(r, s, kAbstract, p, names)
		newConcept(r, s, kDim, p, names)
		newConcept(r, s, kDim, p, names)
		dom := newConcept(r, s, kTypedDom, p, names)
		newConcept(r, s, kTypedDim, p, names).Domain = dom
		newConcept(r, s, kHypercube, p, names)
		for k := 0; k < 4; k++ {
			newConcept(r, s, kMember, p, names)
		}
		w.Globals = append(w.Globals, s)
		path := storePath(w.GTS, l)
		must(os.MkdirAll(filepath.Dir(path), 0755))
		must(os.WriteFile(path, writeXML(schemaDoc(s), anyLayout(r)), 0644))
	}
}

// start makes this process the server of the world.
func (w *World) start() {
	must(os.Chdir(w.Dir))
	serializables.WorkingDirectoryPath = w.WD
	serializables.GlobalTaxonomySetPath = w.GTS
	hydratables.InjectCache(cache.NewCache(false))
	w.Router = web.NewRouter()
}

var shortIDs = []string{"7", "x", "X", "~", "-", "é", "00", "a.b"}

func (w *World) newID() string {
	w.n++
	if w.n <= len(shortIDs) {
		return shortIDs[w.n-1]
	}
	return fmt.Sprintf("f%d-%d", w.Idx, w.n)
}

func (w *World) folder(id string) string { return filepath.Join(w.WD, "folders", id) }

// add generates a filing and puts it into the world.
func (w *World) add(c *Case, p Prof) *Filing {
	f := GenFiling(c.Rng, w, w.newID(), p)
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	return f
}

// drop removes a filing once it has been judged.
func (w *World) drop(f *Filing) { os.RemoveAll(w.folder(f.ID)) }

// Resp is a response as the client sees it. Status 0 means that the handler panicked.
type Resp struct {
	Status int
	Type   string
	Body   string
	Panic  string
}

func (r Resp) ok() bool { return r.Status == 200 }

func (r Resp) String() string {
	b := r.Body
	if len(b) > 300 {
		b = b[:300] + "..."
	}
	return fmt.Sprintf("%d %q %s%s", r.Status, r.Type, b, r.Panic)
}

func (w *World) do(method, target string) (resp Resp) {
	defer func() {
		if e := recover(); e != nil {
			resp = Resp{Panic: fmt.Sprintf("panic: %v\n%s", e, debug.Stack())}
		}
	}()
	req, err := http.NewRequest(method, "http://server"+target, nil)
	if err != nil {
		panic(err)
	}
	req.RequestURI = target
	rec := httptest.NewRecorder()
	w.Router.ServeHTTP(rec, req)
	return Resp{Status: rec.Code, Type: rec.Header().Get("Content-Type"), Body: rec.Body.String()}
}

func (w *World) get(target string) Resp { return w.do("GET", target) }

func folderURL(id string) string { return "/folders/" + url.PathEscape(id) }

func netURL(id, hash string) string { return folderURL(id) + "/" + url.PathEscape(hash) }

func factURL(id, name, ctx string) string {
	return folderURL(id) + "/facts?name=" + url.QueryEscape(name) + "&contextref=" + url.QueryEscape(ctx)
}

// answers

type OLabel map[string]map[string]string

type OEntity struct{ Scheme, CharData string }

type OSubject struct {
	Name   string
	Entity OEntity
}

type ORelSet struct{ Title, RoleURI string }

type OCatalog struct {
	Subjects         []OSubject
	RelationshipSets []ORelSet
	Networks         map[string]map[string]string
	DocumentName     string
}

type OHref struct {
	Href  string
	Label OLabel
}

type OCell struct {
	ExplicitMember *OHref
	TypedMember    string
}

type OVoid struct {
	IsParenthesized bool
	Indentation     int
	Dimension       OHref
	TypedDomain     *OHref
}

type OExpr struct{ Head, Core, Tail, InnerHtml string }

type OGridCore struct {
	PeriodHeaders        []map[string]string
	ContextualMemberGrid [][]*OCell
	VoidQuadrant         []*OVoid
	FactualQuadrant      [][]map[string]OExpr
	FootnoteGrid         [][][]int
	Footnotes            []string
}

type OIndented struct {
	Href        string
	Label       OLabel
	Indentation int
}

type OPGrid struct {
	IndentedLabels []OIndented
	OGridCore
}

type OPrimary struct {
	Href  string
	Label OLabel
	Level int
}

type OEffMember struct {
	Href            string
	Label           OLabel
	IsDefault       bool
	IsStrikethrough bool
}

type ORoot struct {
	Href         string
	Label        OLabel
	PrimaryItems []OPrimary
	OGridCore
	EffectiveDomainGrid [][][]OEffMember
	EffectiveDimensions []OHref
}

type ODRSLink struct {
	SourceHref, TargetHref string
	HypercubeConnection    *struct {
		IsClosed       bool
		ContextElement string
		IsInclusive    bool
		External       string
	}
	HypercubeDimensionConnection *struct{ Order, External string }
	DimensionDomainConnection    *struct {
		Order    string
		Default  bool
		Usable   bool
		External string
	}
	DomainMemberConnection *struct {
		Order    string
		Usable   bool
		External string
	}
}

type OContrib struct {
	Sign, Scale, BalanceType, Href string
	Label                          OLabel
	IsSummationItem                bool
}

type OSum struct {
	Href                 string
	Label                OLabel
	BalanceType          string
	ContributingConcepts []OContrib
	OGridCore
}

type ONetwork struct {
	RelationshipSet ORelSet
	Subject         OSubject
	Lang            []string
	LabelRoles      []string
	PGrid           OPGrid
	DGrid           struct {
		RootDomains []ORoot
		DRS         struct {
			Nodes []OHref
			Links []ODRSLink
		}
	}
	CGrid struct{ SummationItems []OSum }
}

type OFact struct {
	Href    string
	Labels  OLabel
	Context struct {
		Period               map[string]string
		VoidQuadrant         []*OVoid
		ContextualMemberGrid [][]*OCell
	}
	Expression map[string]OExpr
	Footnotes  []string
}

// catalog fetches the catalog of a filing.
func (w *World) catalog(c *Case, id string) *OCatalog {
	resp := w.get(folderURL(id))
	if !resp.ok() {
		c.Fail("catalog of a well-formed filing: %s", resp)
		return nil
	}
	cat := &OCatalog{}
	if err := json.Unmarshal([]byte(resp.Body), cat); err != nil {
		c.Fail("catalog is not the documented JSON: %v", err)
		return nil
	}
	return cat
}

// Net is a fetched network.
type Net struct {
	*ONetwork
	Role *Role
	Ent  Ent
	Hash string
	Body string
}

// networks fetches every network of the filing.
func (w *World) networks(c *Case, f *Filing) []Net {
	cat := w.catalog(c, f.ID)
	if cat == nil {
		return nil
	}
	var ret []Net
	seen := map[Ent]bool{}
	for _, ctx := range f.Ctxs {
		if seen[ctx.Ent] {
			continue
		}
		seen[ctx.Ent] = true
		for _, role := range f.Roles {
			hash := cat.Networks[ctx.Ent.Scheme+"/"+ctx.Ent.ID][role.URI]
			if hash == "" {
				c.Fail("the catalog gives no address for %v %s", ctx.Ent, role.URI)
				continue
			}
			resp := w.get(netURL(f.ID, hash))
			if !resp.ok() {
				c.Fail("network %s of %v: %s", role.URI, ctx.Ent, resp)
				continue
			}
			n := &ONetwork{}
			if err := json.Unmarshal([]byte(resp.Body), n); err != nil {
				c.Fail("network is not the documented JSON: %v", err)
				continue
			}
			ret = append(ret, Net{n, role, ctx.Ent, hash, resp.Body})
		}
	}
	return ret
}

func trimLines(s string) string { return strings.TrimSpace(s) }
