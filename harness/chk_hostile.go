package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	register(&Check{ID: "C04", Level: "exploration", Quick: 8000, Thorough: 60000, Worlds: 32, MemMB: 6000, Run: runC04,
		Rule:        "a damaged filing answered without harm; identified by the damage done",
		Assumptions: []string{"an answer that takes more than 150 s, or more than 6 GB of address space, counts as never given"}})
}

var xmlToken = regexp.MustCompile(`(?s)<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<[^>]*>|[^<]+`)
var attrToken = regexp.MustCompile(`([\w:.-]+)="([^"]*)"`)

type mutator struct {
	*Case
	log []string
}

func (m *mutator) note(format string, a ...interface{}) {
	m.log = append(m.log, clipText(fmt.Sprintf(format, a...), 160))
}

func isOpen(t string) bool {
	return strings.HasPrefix(t, "<") && !strings.HasPrefix(t, "</") && !strings.HasPrefix(t, "<!") && !strings.HasPrefix(t, "<?")
}

// span gives the index after the end of the element that starts at i.
func span(toks []string, i int) int {
	depth := 0
	for k := i; k < len(toks); k++ {
		t := toks[k]
		switch {
		case isOpen(t):
			if !strings.HasSuffix(t, "/>") {
				depth++
			}
		case strings.HasPrefix(t, "</"):
			depth--
		}
		if depth == 0 {
			return k + 1
		}
	}
	return len(toks)
}

var oddValues = []string{"", " ", "#", "x", "-1", "0", "1e999", "-1e400", "NaN", "Inf", "INF", "99999999999999999999999", "-99999999999", "400", "-400", "2147483648", "http://", "https://nowhere.example/none.xsd", "http://xbrl.example/base/2021/base-2021.xsd",
	"../../../etc/passwd", "/etc/passwd", ":", "a:b:c", "nosuch:thing", ":x", "x:", "true", "false", "2020-13-45", "0000-00-00", "9999-12-31", "-0001-01-01", "20200101", "2020-01-01T00:00:00", "2020-01-01T24:00:00Z", "é中", "%", "%zz", "%00", "a b", "#a#b", "x#", "#x", "co-2021.xsd#", "http://[::1", "file:///etc/passwd", "http://www.xbrl.org/2003/role/label", "\t\n"}

func (m *mutator) value(pool []string) string {
	switch m.Intn(10) {
	case 0, 1, 2, 3:
		return escAttr(pick(m.Rng, oddValues))
	case 4:
		return strings.Repeat(pick(m.Rng, []string{"9", "a", "a/", "#", "x:"}), pick(m.Rng, []int{50, 5000}))
	default:
		if len(pool) > 0 {
			return pick(m.Rng, pool)
		}
		return ""
	}
}

// mutate damages the text of an XML document.
func (m *mutator) mutate(name, s string) string {
	toks := xmlToken.FindAllString(s, -1)
	var opens, texts []int
	var pool []string
	for i, t := range toks {
		if isOpen(t) {
			opens = append(opens, i)
			for _, a := range attrToken.FindAllStringSubmatch(t, -1) {
				if !strings.HasPrefix(a[1], "xmlns") {
					pool = append(pool, a[2])
				}
			}
		} else if !strings.HasPrefix(t, "<") && strings.TrimSpace(t) != "" {
			texts = append(texts, i)
		}
	}
	if len(opens) == 0 {
		return s
	}
	inner := opens
	if len(opens) > 1 {
		inner = opens[1:]
	}
	kinds := kindsOf(toks)
	target := func(among []int) int {
		if m.Pct(50) {
			return pick(m.Rng, among)
		}
		// one of a rarer kind
		g := kinds[pick(m.Rng, keysOf(kinds))]
		return pick(m.Rng, g[pick(m.Rng, keysOf(g))])
	}
	switch m.Intn(19) {
	case 0, 1, 2, 3, 4: // an attribute gets another value
		for k := 0; k < 20; k++ {
			i := target(opens)
			as := attrToken.FindAllStringSubmatchIndex(toks[i], -1)
			if len(as) == 0 {
				continue
			}
			a := pick(m.Rng, as)
			v := m.value(pool)
			m.note("%s: %s %s set to %q", name, strings.Fields(toks[i])[0], toks[i][a[2]:a[3]], v)
			toks[i] = toks[i][:a[4]] + v + toks[i][a[5]:]
			break
		}
	case 5, 6: // an attribute is lost
		for k := 0; k < 20; k++ {
			i := target(opens)
			as := attrToken.FindAllStringSubmatchIndex(toks[i], -1)
			if len(as) == 0 {
				continue
			}
			a := pick(m.Rng, as)
			m.note("%s: %s loses %s", name, strings.Fields(toks[i])[0], toks[i][a[0]:a[1]])
			toks[i] = toks[i][:a[0]] + toks[i][a[1]:]
			break
		}
	case 7: // an element is lost
		i := target(inner)
		j := span(toks, i)
		m.note("%s: %s lost", name, toks[i])
		toks = append(append([]string{}, toks[:i]...), toks[j:]...)
	case 8: // an element loses its content
		i := target(opens)
		j := span(toks, i)
		if j > i+1 {
			m.note("%s: %s emptied", name, toks[i])
			toks = append(append([]string{}, toks[:i+1]...), toks[j-1:]...)
		}
	case 9: // an element is repeated
		i := target(inner)
		j := span(toks, i)
		n := pick(m.Rng, []int{1, 1, 2, 40})
		m.note("%s: %s repeated %d times", name, toks[i], n)
		part := strings.Repeat(strings.Join(toks[i:j], ""), n)
		toks = append(append(append([]string{}, toks[:j]...), part), toks[j:]...)
	case 10: // an element is moved
		i := target(inner)
		j := span(toks, i)
		part := append([]string{}, toks[i:j]...)
		rest := append(append([]string{}, toks[:i]...), toks[j:]...)
		k := m.Intn(len(rest) + 1)
		m.note("%s: %s moved", name, toks[i])
		toks = append(append(append([]string{}, rest[:k]...), part...), rest[k:]...)
	case 11, 12: // a text is replaced
		if len(texts) > 0 {
			i := pick(m.Rng, texts)
			v := m.value(pool)
			m.note("%s: text %q becomes %q", name, toks[i], v)
			toks[i] = v
		}
	case 13, 16, 17: // an element is renamed
		i := target(opens)
		j := span(toks, i)
		old := strings.TrimRight(strings.Fields(strings.TrimPrefix(toks[i], "<"))[0], "/>")
		local := old[strings.LastIndex(old, ":")+1:]
		nn := pick(m.Rng, []string{"x", "nosuch:x", "context", "a:b:c", "label", "loc", "element", local, "nosuch:" + local, local + "X"})
		m.note("%s: %s renamed to %s", name, old, nn)
		toks[i] = "<" + nn + strings.TrimPrefix(toks[i], "<"+old)
		if j-1 > i && j <= len(toks) {
			toks[j-1] = "</" + nn + ">"
		}
	case 14: // the document ends early
		k := m.Intn(len(s))
		m.note("%s: cut after %d bytes", name, k)
		return s[:k]
	case 15: // bytes are damaged
		b := []byte(s)
		for k := m.In(1, 4); k > 0; k-- {
			i := m.Intn(len(b))
			b[i] = pick(m.Rng, []byte{0, '<', '>', '&', '"', ' ', 0xff, ':', '/', '#', '9'})
		}
		m.note("%s: bytes damaged", name)
		return string(b)
	default: // deep nesting
		i := pick(m.Rng, texts2(texts, opens))
		n := pick(m.Rng, []int{200, 2000})
		tag := pick(m.Rng, []string{"d", "x", strings.TrimRight(strings.Fields(strings.TrimPrefix(toks[pick(m.Rng, opens)], "<"))[0], "/>")})
		m.note("%s: %d %s elements nested", name, n, tag)
		deep := strings.Repeat("<"+tag+">", n) + "1" + strings.Repeat("</"+tag+">", n)
		toks[i] = toks[i] + deep
	}
	return strings.Join(toks, "")
}

// tagName is the name of the element a token opens or closes.
func tagName(tok string) string {
	return strings.TrimRight(strings.Fields(strings.TrimLeft(tok, "</"))[0], "/>")
}

// kindsOf groups the elements below the root by the names of their parents and their own names.
func kindsOf(toks []string) map[string]map[string][]int {
	ret := map[string]map[string][]int{}
	var stack []string
	for i, t := range toks {
		switch {
		case isOpen(t):
			parent := ""
			if len(stack) > 0 {
				parent = stack[len(stack)-1]
			}
			if ret[parent] == nil {
				ret[parent] = map[string][]int{}
			}
			ret[parent][tagName(t)] = append(ret[parent][tagName(t)], i)
			if !strings.HasSuffix(t, "/>") {
				stack = append(stack, tagName(t))
			}
		case strings.HasPrefix(t, "</") && len(stack) > 0:
			stack = stack[:len(stack)-1]
		}
	}
	return ret
}

func texts2(a, b []int) []int {
	if len(a) > 0 {
		return a
	}
	return b
}

// cycle makes references go in circles.
func (m *mutator) cycle(f *Filing) {
	ls := f.Locals()
	for k := m.In(1, 4); k > 0; k-- {
		a, b := pick(m.Rng, ls), pick(m.Rng, f.Schemas)
		switch m.Intn(6) {
		case 0:
			a.Includes = append(a.Includes, b)
		case 1:
			a.Imports = append(a.Imports, b)
		case 2: // presentation
			r := pick(m.Rng, f.Roles)
			if len(r.P) > 0 {
				n := pick(m.Rng, r.P)
				leaf := n
				for len(leaf.Kids) > 0 {
					leaf = pick(m.Rng, leaf.Kids)
				}
				back := *n
				back.Kids = nil
				back.Order = "1"
				leaf.Kids = append(leaf.Kids, &back)
			}
		case 3:
			r := pick(m.Rng, f.Roles)
			if len(r.C) > 0 {
				x := *pick(m.Rng, r.C)
				x.From, x.To, x.FromLoc, x.ToLoc = x.To, x.From, x.ToLoc, x.FromLoc
				r.C = append(r.C, &x)
			}
		default:
			r := pick(m.Rng, f.Roles)
			if len(r.D) > 0 {
				n := pick(m.Rng, r.D)
				if len(n.Arcs) > 0 {
					x := *pick(m.Rng, n.Arcs)
					x.From, x.To = x.To, x.From
					if m.Pct(50) {
						x.From = pick(m.Rng, n.Arcs).From
					}
					if m.Pct(40) {
						x.Arcrole = pick(m.Rng, []string{arcDomMem, arcDimDom, arcHcDim, arcAll, arcNotAll, arcDimDef})
					}
					n.Arcs = append(n.Arcs, &x)
				}
			}
		}
	}
	m.note("references in circles")
}

func (m *mutator) hostileText(f *Filing) {
	for _, x := range f.Facts {
		if x.C.Kind != kText {
			continue
		}
		n := pick(m.Rng, []int{1, 30, 1000})
		piece := pick(m.Rng, append([]string{"<table><tr><td colspan=\"1000000000\">", "<td colspan='1000'>", "<th colspan=\"999\">x</th>", "<div>"}, wildPieces...))
		if n > 30 && strings.Contains(piece, "colspan") {
			n = 30
		}
		x.Raw = ""
		x.Value = strings.Repeat(piece, n)
		m.note("text block of %d times %s", n, piece)
	}
}

var oddEntries = []string{`{"Entry":""}`, `{"Entry":"."}`, `{"Entry":".."}`, `{"Entry":"../x.xml"}`, `{"Entry":"nosuch.htm"}`, `{"Entry":".htm"}`, `{"Entry":".xml"}`, `{"Entry":"x.html"}`, `{"Entry":5}`, `{"Entry":null}`, `[]`, `null`, `5`, `{}`, ``, `{"Entry":"_"}`, `{"entry":"a.xml"}`, `{"Entry":"/etc/passwd.xml"}`, `{"Entry":"a\u0000b.xml"}`, `{"Entry":"sub/x.xml"}`}

var healthy = map[*World]*Filing{}
var healthyAns = map[string]string{}

func runC04(w *World, c *Case) {
	if healthy[w] == nil {
		hc := &Case{Rng: newRng("healthy", seed, w.Idx), Index: -1, Check: c.Check, Res: c.Res}
		p := stdProf()
		p.Inline, p.Globals = 100, 100
		f := w.add(hc, p)
		healthy[w] = f
		healthyAns = w.answers(c, f, true)
	}
	m := &mutator{Case: c}
	p := stdProf()
	p.Ctxs, p.Concepts, p.Roles, p.Text, p.Inline, p.Globals = [2]int{1, 5}, [2]int{3, 8}, [2]int{1, 3}, 20, 40, 60
	// a global taxonomy of its own
	w2 := *w
	var own *Schema
	if c.Pct(50) {
		gw := &World{Idx: w.Idx, GTS: w.GTS}
		gr := newRng("global", seed, c.Index)
		gw.makeGlobalsAt(gr, []string{fmt.Sprintf("http://case%d.example/a.xsd", c.Index), fmt.Sprintf("http://case%d.example/b.xsd", c.Index)})
		w2.Globals = gw.Globals
		own = gw.Globals[0]
	}
	f := GenFiling(c.Rng, &w2, w.newID(), p)
	if c.Pct(35) {
		m.cycle(f)
	}
	if c.Pct(25) {
		m.hostileText(f)
	}
	dir := w.folder(f.ID)
	f.Write(dir, func(string) *Layout { l := anyLayout(c.Rng); l.Comment = false; return l })
	c.FilingDir = dir
	defer w.drop(f)
	var files []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.Name() != "_" {
			files = append(files, filepath.Join(dir, e.Name()))
		}
	}
	if own != nil {
		files = append(files, storePath(w.GTS, own.Loc), storePath(w.GTS, w2.Globals[1].Loc))
		defer os.RemoveAll(filepath.Dir(storePath(w.GTS, own.Loc)))
		if c.Pct(30) {
			// global taxonomies that refer to each other
			own.Imports = append(own.Imports, w2.Globals[1], own)
			w2.Globals[1].Imports = append(w2.Globals[1].Imports, own)
			for _, s := range w2.Globals {
				must(os.WriteFile(storePath(w.GTS, s.Loc), writeXML(schemaDoc(s), plainLayout(c.Rng)), 0644))
			}
			m.note("global taxonomies in circles")
		}
	}
	for k := pick(c.Rng, []int{0, 1, 1, 2, 3, 6}); k > 0; k-- {
		file := pick(c.Rng, files)
		if c.Pct(20) {
			file = filepath.Join(dir, instanceName(f))
		} else if f.Inline && c.Pct(25) {
			file = filepath.Join(dir, f.Entry)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		switch c.Intn(25) {
		case 0:
			os.Remove(file)
			m.note("%s removed", filepath.Base(file))
			continue
		case 1:
			os.Remove(file)
			os.Mkdir(file, 0755)
			m.note("%s is a directory", filepath.Base(file))
			continue
		case 2:
			o, _ := os.ReadFile(pick(c.Rng, files))
			b = o
			m.note("%s has another file's content", filepath.Base(file))
		default:
			b = []byte(m.mutate(filepath.Base(file), string(b)))
		}
		must(os.WriteFile(file, b, 0644))
	}
	if c.Pct(6) {
		e := pick(c.Rng, oddEntries)
		must(os.WriteFile(filepath.Join(dir, "_"), []byte(e), 0644))
		m.note("entry description %s", e)
	}
	get := func(t string) Resp {
		r := w.get(t)
		c.Eval()
		if r.Status == 0 {
			c.Fail("%s was not answered after %q: %s", t, m.log, r.Panic)
		} else if r.ok() {
			c.Count("requests answered 200", 1)
		} else {
			c.Count("requests answered with an error", 1)
		}
		return r
	}
	r := get(folderURL(f.ID))
	cat := &OCatalog{}
	if r.ok() {
		c.Count("catalogs of damaged filings", 1)
		json.Unmarshal([]byte(r.Body), cat)
	}
	n := 0
	for _, e := range keysOf(cat.Networks) {
		for _, role := range keysOf(cat.Networks[e]) {
			if n < 6 {
				get(netURL(f.ID, cat.Networks[e][role]))
			}
			n++
		}
	}
	get(netURL(f.ID, f.Entry))
	get(netURL(f.ID, pick(c.Rng, oddValues)+"x"))
	k := 0
	for _, x := range f.Facts {
		if name := f.TagName[x]; name != "" && k < 6 {
			k++
			get(factURL(f.ID, name, x.Ctx.ID))
		}
	}
	get(factURL(f.ID, pick(c.Rng, oddValues), pick(c.Rng, oddValues)))
	for _, gt := range f.GhostTags {
		get(factURL(f.ID, gt.Name, gt.Ctx))
	}
	c.Distinct(joined(m.log))
	if len(m.log) > 0 {
		c.Sample("%s", strings.Join(m.log, "; "))
	}
	// another folder afterwards
	if c.Index/32%4 == 0 {
		h := *healthy[w]
		h.ID = w.newID()
		copyFolder(w.folder(healthy[w].ID), w.folder(h.ID))
		again := w.answers(c, &h, true)
		w.drop(&h)
		c.Eval()
		c.Count("healthy folders served afterwards", 1)
		for _, what := range keysOf(healthyAns) {
			if again[what] != healthyAns[what] {
				c.Fail("a healthy folder's %s changed after %q: %s", what, m.log, firstDiff(healthyAns[what], again[what]))
				break
			}
		}
	}
}
