package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C16", Level: "exploration", Quick: 2400, Thorough: 18000, Run: runC16,
		Rule: "a catalog with at least two entity-role pairs, every address of which was followed; identified by its pairs and titles"})
	register(&Check{ID: "C25", Level: "exploration", Quick: 1600, Thorough: 16000, Run: runC25,
		Rule: "a column caption in English or Spanish; identified by the context's period and the language"})
}

// fact asks for a single fact; nil when there is an answer that cannot be used.
func (w *World) fact(c *Case, f *Filing, name, ctx string) *OFact {
	resp := w.get(factURL(f.ID, name, ctx))
	if !resp.ok() {
		c.Fail("single fact %s in %s: %s", name, ctx, resp)
		return nil
	}
	ans := &OFact{}
	if strings.TrimSpace(resp.Body) == "" || resp.Body == "null" {
		c.Fail("single fact %s in %s: empty answer", name, ctx)
		return nil
	}
	if err := json.Unmarshal([]byte(resp.Body), ans); err != nil {
		c.Fail("single fact %s in %s is not the documented JSON: %v", name, ctx, err)
		return nil
	}
	return ans
}

func runC16(w *World, c *Case) {
	p := stdProf()
	p.Roles, p.Ents, p.Fill, p.Labels, p.Foots = [2]int{1, 8}, [2]int{1, 5}, 10, 10, [2]int{0, 0}
	p.Ctxs = [2]int{1, 10}
	if c.Index%100 == 7 {
		c.collisionProbe(w)
	}
	f := w.add(c, p)
	defer w.drop(f)
	cat := w.catalog(c, f.ID)
	if cat == nil {
		return
	}
	c.Eval()
	wantDoc := ""
	if f.Inline {
		wantDoc = f.Entry
	}
	if cat.DocumentName != wantDoc {
		c.Fail("document name %q instead of %q", cat.DocumentName, wantDoc)
	}
	ents := map[Ent]bool{}
	var want, got []string
	for _, ctx := range f.Ctxs {
		if !ents[ctx.Ent] {
			ents[ctx.Ent] = true
			want = append(want, fmt.Sprint(ctx.Ent, w.nameOf(ctx.Ent)))
		}
	}
	for _, s := range cat.Subjects {
		got = append(got, fmt.Sprint(Ent{s.Entity.Scheme, s.Entity.CharData}, s.Name))
	}
	if d := diffSets(want, got); d != "" {
		c.Fail("entities: %s", d)
		return
	}
	want, got = nil, nil
	for _, r := range f.Roles {
		want = append(want, r.Title+" | "+r.URI)
	}
	for i, r := range cat.RelationshipSets {
		got = append(got, r.Title+" | "+r.RoleURI)
		if i > 0 && cat.RelationshipSets[i-1].Title > r.Title {
			c.Fail("role %q comes after %q", r.Title, cat.RelationshipSets[i-1].Title)
		}
	}
	if d := diffSets(want, got); d != "" {
		c.Fail("roles: %s", d)
		return
	}
	taken := map[string]string{}
	pairs := 0
	for e := range ents {
		m := cat.Networks[e.Scheme+"/"+e.ID]
		var wantURI []string
		for _, r := range f.Roles {
			wantURI = append(wantURI, r.URI)
		}
		if d := diffSets(wantURI, keysOf(m)); d != "" {
			c.Fail("addresses of %v: %s", e, d)
			return
		}
		for _, r := range f.Roles {
			hash := m[r.URI]
			pair := fmt.Sprint(e, " ", r.URI)
			if o := taken[hash]; o != "" {
				c.Fail("%s and %s have the same address %s", o, pair, hash)
				return
			}
			taken[hash] = pair
			pairs++
			resp := w.get(netURL(f.ID, hash))
			n := &ONetwork{}
			if !resp.ok() || json.Unmarshal([]byte(resp.Body), n) != nil {
				c.Fail("address of %s: %s", pair, resp)
				return
			}
			if n.Subject.Entity != (OEntity{e.Scheme, e.ID}) || n.Subject.Name != w.nameOf(e) || n.RelationshipSet != (ORelSet{r.Title, r.URI}) {
				c.Fail("address of %s leads to %s %s", pair, toJSON(n.Subject), toJSON(n.RelationshipSet))
				return
			}
		}
	}
	if len(cat.Networks) != len(ents) {
		c.Fail("addresses for %d entities instead of %d: %q", len(cat.Networks), len(ents), keysOf(cat.Networks))
	}
	for _, bad := range []string{"0", "00000000000000000000000000000000", "networks", "x.json", strings.Repeat("f", 32), anyKey(taken) + "0", anyKey(taken)[1:]} {
		if taken[bad] != "" {
			continue
		}
		if resp := w.get(netURL(f.ID, bad)); resp.Status < 400 {
			c.Fail("address %q that the catalog does not list: %s", bad, resp)
		}
		c.Count("unlisted addresses", 1)
	}
	c.Count("addresses followed", pairs)
	if pairs > 1 {
		c.Distinct(sorted(want), len(ents), sorted(got))
		c.Sample("%d entities, %d roles: %q", len(ents), len(f.Roles), want)
	}
}

func anyKey(m map[string]string) string {
	k := keysOf(m)
	if len(k) == 0 {
		return "1234"
	}
	return k[0]
}

// collisionProbe requests the one kind of filing that is known to break the property: two roles
// whose address and title read the same when written one after the other.
func (c *Case) collisionProbe(w *World) {
	p := stdProf()
	p.Roles, p.Ents, p.Inline = [2]int{2, 2}, [2]int{1, 1}, 0
	f := GenFiling(c.Rng, w, w.newID(), p)
	defer w.drop(f)
	f.Roles[0].URI, f.Roles[0].Title = "http://company.example/role/A", "1 - Sheet"
	f.Roles[1].URI, f.Roles[1].Title = "http://company.example/role/A1", " - Sheet"
	f.WriteAny(w.folder(f.ID), c.Rng)
	cat := w.catalog(c, f.ID)
	if cat == nil {
		return
	}
	for _, m := range cat.Networks {
		if m[f.Roles[0].URI] != "" && m[f.Roles[0].URI] == m[f.Roles[1].URI] {
			c.Known("roles 'http://company.example/role/A' titled '1 - Sheet' and 'http://company.example/role/A1' titled ' - Sheet' get the same address")
		}
	}
}

func (c *Case) randomDate() time.Time {
	t := time.Date(1990+c.Intn(50), time.Month(1+c.Intn(12)), 1+c.Intn(31), 0, 0, 0, 0, time.UTC)
	switch c.Intn(6) {
	case 0:
		t = time.Date(2000+4*c.Intn(8), 2, 29, 0, 0, 0, 0, time.UTC)
	case 1:
		t = time.Date(2000+c.Intn(30), 12, 31, 0, 0, 0, 0, time.UTC)
	case 2:
		t = time.Date(2000+c.Intn(30), time.Month(1+c.Intn(12))+1, 0, 0, 0, 0, 0, time.UTC)
	}
	return t
}

// isoDate formats the last day of n months that start on the given day, and so on.
func (c *Case) randomPeriod(x *Context) {
	end := c.randomDate()
	x.Start, x.End = "", date(end)
	switch c.Intn(9) {
	case 0, 1:
		return
	case 2, 3:
		// whole months: from the first of a month to the last day of a month
		n := c.In(1, 40)
		first := time.Date(end.Year(), end.Month(), 1, 0, 0, 0, 0, time.UTC)
		last := first.AddDate(0, n, -1)
		x.Start, x.End = date(first), date(last)
	case 4:
		// whole months from any day
		n := c.In(1, 30)
		start := time.Date(end.Year(), end.Month(), 1+c.Intn(28), 0, 0, 0, 0, time.UTC)
		x.Start, x.End = date(start), date(start.AddDate(0, n, -1))
	case 5:
		weeks := pick(c.Rng, []int{13, 26, 39, 52, 53})
		x.Start = date(end.AddDate(0, 0, -7*weeks+1))
	case 6:
		x.Start = date(end.AddDate(0, 0, -c.In(0, 45)))
	case 7:
		x.Start = date(end.AddDate(0, 0, -c.In(30, 2000)))
	default:
		x.Start = date(end.AddDate(-c.In(1, 3), 0, 1))
	}
}

func runC25(w *World, c *Case) {
	p := stdProf()
	p.Fill, p.Labels, p.Foots, p.Members, p.Ctxs, p.Roles = 40, 70, [2]int{0, 0}, 15, [2]int{3, 12}, [2]int{1, 2}
	p.Inline = 10
	f := GenFiling(c.Rng, w, w.newID(), p)
	by := map[string]*Context{}
	for _, x := range f.Ctxs {
		c.randomPeriod(x)
		by[x.period()] = x
	}
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		langs := map[string]bool{}
		for _, l := range n.Lang {
			langs[l] = true
		}
		for _, g := range n.grids() {
			for _, h := range g.PeriodHeaders {
				x := by[h[langPure]]
				if x == nil {
					c.Fail("%s: caption %s matches no context", g.What, toJSON(h))
					continue
				}
				for _, lang := range []string{langEN, langES} {
					caption, given := h[lang]
					if !given {
						if langs[lang] {
							c.Fail("%s: no caption in %s for %s though the network announces it", g.What, lang, x.period())
						}
						continue
					}
					c.Eval()
					if s := captionOK(x, lang, caption); s != "" {
						c.Fail("%s: period %s is captioned %q in %s: %s", g.What, x.period(), caption, lang, s)
						continue
					}
					c.Distinct(x.period(), lang)
					c.Sample("%s in %s: %s", x.period(), lang, caption)
					c.Count("captions in "+lang, 1)
				}
			}
		}
	}
}

var spanishMonths = []string{"enero", "febrero", "marzo", "abril", "mayo", "junio", "julio", "agosto", "septiembre", "octubre", "noviembre", "diciembre"}

var captionEN = regexp.MustCompile(`^(?:as of|(\d+) months? ended) ([A-Z][a-z]+ \d{1,2}, \d{4})$`)
var captionES = regexp.MustCompile(`^(?:al|(\d+|un) mes(?:es)? terminados? al) (\d{1,2}) (?:de )?([a-zñé]+) (?:de )?(\d{4})$`)

// monthsBetween gives the number of whole months from start to end inclusive (0 when it is not
// a whole number of months).
func monthsBetween(start, end time.Time) int {
	for n := 1; n < 600; n++ {
		if start.Day() <= 28 || start.AddDate(0, n, 0).Day() == start.Day() {
			t := start.AddDate(0, n, -1)
			if t.Equal(end) {
				return n
			}
			if t.After(end) {
				return 0
			}
		}
	}
	return 0
}

func captionOK(x *Context, lang, caption string) string {
	end, err := time.Parse("2006-01-02", x.End)
	must(err)
	raw := x.period()
	days := 0
	var start time.Time
	if x.Start != "" {
		start, err = time.Parse("2006-01-02", x.Start)
		must(err)
		days = int(end.Sub(start).Hours() / 24)
		if days < 30 {
			if strings.TrimSpace(caption) != raw {
				return "a short period must be shown raw"
			}
			return ""
		}
	}
	months, shown := "", ""
	if lang == langEN {
		m := captionEN.FindStringSubmatch(caption)
		if m == nil {
			return "not understood"
		}
		months, shown = m[1], m[2]
		if shown != end.Format("January 2, 2006") {
			return "wrong end date"
		}
	} else {
		m := captionES.FindStringSubmatch(strings.ToLower(caption))
		if m == nil {
			return "not understood"
		}
		months = m[1]
		if months == "un" {
			months = "1"
		}
		day, _ := strconv.Atoi(m[2])
		if day != end.Day() || m[3] != spanishMonths[end.Month()-1] || m[4] != strconv.Itoa(end.Year()) {
			return "wrong end date"
		}
	}
	if x.Start == "" {
		if months != "" {
			return "an instant captioned as a duration"
		}
		return ""
	}
	n, err := strconv.Atoi(months)
	if err != nil {
		return "no number of months"
	}
	if n == 1 && strings.Contains(caption, "months") || n != 1 && strings.Contains(caption, "month ") {
		return "wrong plural"
	}
	if k := monthsBetween(start, end); k > 0 {
		if n != k {
			return fmt.Sprintf("%d months instead of %d", n, k)
		}
		return ""
	}
	if k, ok := map[int]int{13: 3, 26: 6, 39: 9, 52: 12, 53: 12}[(days+1)/7]; ok && (days+1)%7 == 0 {
		if n != k {
			return fmt.Sprintf("%d months instead of %d", n, k)
		}
		return ""
	}
	if float64(n) > float64(days+1)/30.4375+1.01 || float64(n) < float64(days)/30.4375-1.01 {
		return fmt.Sprintf("%d months for %d days", n, days+1)
	}
	return ""
}

var _ = sort.Strings
