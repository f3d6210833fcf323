package main

import (
	"fmt"
	gohtml "html"
	"strings"

	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C15", Level: "exploration", Quick: 2000, Thorough: 30000, Run: runC15,
		Rule: "a displayed text block whose reported content has markup; identified by the reported content"})
}

// textGen invents the content of a text block together with what must be seen of it.
type textGen struct {
	*Case
	n     int
	want  []tok
	table int
	row   int
	cell  int
	depth int
	// content that only has to be inert
	wild bool
}

// tok is a piece of visible text with the row and cell it belongs to (0: outside tables).
type tok struct {
	text      string
	row, cell int
}

func (g *textGen) word() string {
	g.n++
	s := fmt.Sprintf("w%dz", g.n)
	if g.Pct(12) {
		// found in no other text
		s = pick(g.Rng, []string{"$", "+", "@", "~", "^", "*", "|", "—"})
		g.want = append(g.want, tok{s, g.row, g.cell})
		return s
	}
	switch g.Intn(8) {
	case 0:
		s += pick(g.Rng, []string{"&amp", "ü", "ñ", "€5", "'q'", "\"dq\"", "100%"})
	case 1:
		s += pick(g.Rng, []string{"<script>alert(1)</script>", "<b>", "a<b", "&lt;i&gt;", "<img src=x onerror=y>", "<td>", "</table>"})
	}
	g.want = append(g.want, tok{s, g.row, g.cell})
	return gohtml.EscapeString(s)
}

func (g *textGen) attrs() string {
	if !g.Pct(30) {
		return ""
	}
	return pick(g.Rng, []string{` class="a"`, ` style='x:y'`, ` style="border:none;display:block"`, ` hidden=""`, ` onclick="evil()"`, ` id=q`, ` href="javascript:1"`, ` onmouseover=a`, ` title="&lt;td&gt;"`})
}

func (g *textGen) inline() string {
	s := g.word()
	switch g.Intn(7) {
	case 0:
		tag := pick(g.Rng, []string{"b", "i", "span", "font", "a", "u", "ix:x"})
		return "<" + tag + g.attrs() + ">" + s + "</" + tag + ">"
	case 1:
		return s + pick(g.Rng, []string{"<br>", "<br/>", "<!-- c <td> -->", "<img src='x.png' onerror='e()'/>", "<hr>"})
	}
	return s
}

func (g *textGen) flow(depth int) string {
	var b strings.Builder
	for i := g.In(1, 4); i > 0; i-- {
		switch k := g.Intn(8); {
		case k < 2:
			tag := pick(g.Rng, []string{"div", "p", "h1", "h3", "h6", "ul", "section"})
			b.WriteString("<" + tag + g.attrs() + ">")
			if depth < 3 && tag != "p" {
				b.WriteString(g.flow(depth + 1))
			} else {
				b.WriteString(g.inline())
			}
			b.WriteString("</" + tag + ">")
		case k < 4 && g.cell == 0:
			b.WriteString(g.tableMarkup())
		case k == 4 && g.Pct(50):
			// text of an element whose content is not markup
			tag := pick(g.Rng, []string{"script", "style", "textarea", "title", "xmp", "noscript", "iframe", "SCRIPT"})
			g.n++
			s := fmt.Sprintf("w%dz", g.n)
			g.want = append(g.want, tok{s, g.row, g.cell})
			b.WriteString("<" + tag + g.attrs() + ">" + s + pick(g.Rng, []string{"", " < 2", "<b", "<p>"}) + "</" + tag + ">")
		case k == 4:
			b.WriteString(pick(g.Rng, []string{"<script>evil(1 < 2)</script>", "<style>td{x:y}</style>", "<iframe src='u'></iframe>", "<object data=x></object>", "<input value='<td>'>"}))
		default:
			b.WriteString(g.inline())
		}
		b.WriteString(pick(g.Rng, []string{"", " ", "\n"}))
	}
	return b.String()
}

func (g *textGen) tableMarkup() string {
	var b strings.Builder
	b.WriteString("<table" + g.attrs() + ">")
	body := g.Pct(40)
	if body {
		b.WriteString("<tbody>")
	}
	for i := g.In(1, 3); i > 0; i-- {
		g.table++
		g.row = g.table
		b.WriteString("<tr" + g.attrs() + ">")
		for k := g.In(1, 4); k > 0; k-- {
			tag := pick(g.Rng, []string{"td", "td", "th"})
			g.depth++
			g.cell = g.depth
			span := ""
			if g.Pct(30) {
				span = fmt.Sprintf(` colspan="%d"`, pick(g.Rng, []int{1, 2, 3, 0, 5}))
			}
			b.WriteString("<" + tag + span + g.attrs() + ">")
			switch g.Intn(5) {
			case 0:
			case 1:
				b.WriteString("<div>" + g.inline() + "</div>" + g.inline())
			default:
				b.WriteString(g.inline())
			}
			b.WriteString("</" + tag + ">" + pick(g.Rng, []string{"", "\n"}))
			g.cell = 0
		}
		b.WriteString("</tr>")
		g.row = 0
	}
	if body {
		b.WriteString("</tbody>")
	}
	b.WriteString("</table>")
	return b.String()
}

var wildPieces = []string{"<td>", "</td>", "<table>", "</table>", "<tr>", "</tr>", "<th colspan=\"3\">", "<td colspan='99999999'>", "<td colspan=-4>", "</th>", "<script>", "</script>", "<script src=x>",
	"<textarea>", "<title>", "<plaintext>", "<noscript>", "<xmp>", "<svg onload=x>", "<math><mi//xlink:href=\"javascript:1\">", "<![CDATA[x]]>", "<!DOCTYPE x>", "<?xml y?>", "<!--", "-->", "<a href=\"javascript:x\">",
	"<IMG SRC=x OnError=alert(1)>", "&lt;script&gt;", "&amp;lt;script&amp;gt;", "&#60;b&#62;", "&#x3c;i&#x3e;", "<", ">", "&", "\"", "'", "<p", "<div onclick=\"", "<br ", "</br>", "<TD>", "<tAbLe bgcolor=1>", "text", "\x01", "￿", "<td/>", "<table/>", "<tr onload=x>", "&nbsp;", "&NotAnEntity;", "<style>", "</style>", "=\"", "<th>", "<b", "/>"}

func runC15(w *World, c *Case) {
	p := stdProf()
	p.Inline, p.Ents, p.Ctxs, p.Fill, p.Nil, p.Text, p.Labels = 0, [2]int{1, 1}, [2]int{1, 1}, 100, 0, 70, 60
	p.Roles, p.Foots, p.Members, p.Globals = [2]int{1, 1}, [2]int{0, 0}, 0, 0
	p.P, p.Concepts, p.D, p.C = 100, [2]int{6, 14}, 40, 0
	f := GenFiling(c.Rng, w, w.newID(), p)
	gens := map[*Fact]*textGen{}
	src := map[*Fact]string{}
	for _, x := range f.Facts {
		if x.C.Kind != kText {
			continue
		}
		g := &textGen{Case: c, wild: c.Pct(35)}
		gens[x] = g
		var markup string
		if g.wild {
			for i := c.In(1, 12); i > 0; i-- {
				markup += pick(c.Rng, wildPieces)
			}
			markup = strings.ReplaceAll(markup, "\x01", "")
			markup = strings.ReplaceAll(markup, "￿", "")
		} else {
			markup = g.flow(0)
		}
		src[x] = markup
		x.Raw = ""
		x.Value = markup
		if !strings.Contains(markup, "]]>") && c.Pct(30) {
			x.Raw = "<![CDATA[" + markup + "]]>"
		}
		if c.Pct(10) && !g.wild {
			x.Raw = "\n  " + x.inner() + "\n"
		}
	}
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	defer w.drop(f)
	for _, n := range w.networks(c, f) {
		for _, g := range n.grids() {
			if s := g.shape(); s != "" {
				c.Fail("%s: %s", g.What, s)
				continue
			}
			for i := range g.FactualQuadrant {
				for _, cell := range g.FactualQuadrant[i] {
					x := f.Fact(g.Rows[i], f.Ctxs[0].ID)
					if x == nil || gens[x] == nil {
						continue
					}
					for _, lang := range keysOf(cell) {
						c.Eval()
						e := cell[lang]
						if e.Head+e.Core+e.Tail != "" {
							c.Fail("text block %s is shown as %s", g.Rows[i], toJSON(e))
							continue
						}
						if s := gens[x].judge(e.InnerHtml); s != "" {
							c.Fail("text block %s reported as %q is shown as %q: %s", g.Rows[i], x.inner(), e.InnerHtml, s)
							continue
						}
						if strings.Contains(src[x], "<") {
							c.Distinct(src[x], x.Raw != "")
							if len(src[x]) < 200 {
								c.Sample("%q is shown as %q", src[x], e.InnerHtml)
							}
						}
						if gens[x].wild {
							c.Count("malformed contents", 1)
						}
						c.Count("words followed", len(gens[x].want))
					}
				}
			}
		}
	}
}

var allowedTags = map[string]bool{"table": true, "tr": true, "td": true, "th": true, "br": true}

func (g *textGen) judge(out string) string {
	z := html.NewTokenizer(strings.NewReader(out))
	type piece struct {
		text      string
		row, cell int
	}
	var pieces []piece
	rows, cells := 0, 0
	row, cell := 0, 0
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		t := z.Token()
		switch tt {
		case html.StartTagToken, html.SelfClosingTagToken:
			if !allowedTags[t.Data] {
				return "element " + t.Data
			}
			if len(t.Attr) > 0 {
				return "element " + t.Data + " with attributes"
			}
			switch t.Data {
			case "tr":
				rows++
				row, cell = rows, 0
			case "td", "th":
				cells++
				cell = cells
			case "table":
				row, cell = 0, 0
			}
		case html.EndTagToken:
			if !allowedTags[t.Data] {
				return "end of element " + t.Data
			}
			switch t.Data {
			case "tr", "table":
				row, cell = 0, 0
			case "td", "th":
				cell = 0
			}
		case html.TextToken:
			pieces = append(pieces, piece{t.Data, row, cell})
		default:
			return "markup that is neither text nor element: " + t.String()
		}
	}
	if g.wild {
		return ""
	}
	squash := func(s string) string { return strings.Join(strings.Fields(s), "") }
	at, off := 0, 0
	rowOf, cellOf := map[int]int{}, map[int]int{}
	cellUsed := map[int]int{}
	rowUsed := map[int]int{}
	for _, t := range g.want {
		word := squash(t.text)
		found := false
		for ; at < len(pieces); at, off = at+1, 0 {
			s := squash(pieces[at].text)
			if i := strings.Index(s[off:], word); i >= 0 {
				off += i + len(word)
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("the text %q is missing or out of order", t.text)
		}
		p := pieces[at]
		if t.cell == 0 {
			if p.cell != 0 {
				return fmt.Sprintf("the text %q ended up in a table cell", t.text)
			}
			continue
		}
		if p.cell == 0 || p.row == 0 {
			return fmt.Sprintf("the text %q is not in a table cell", t.text)
		}
		if v, ok := cellOf[t.cell]; ok && v != p.cell {
			return fmt.Sprintf("the text %q is not in the cell of the text before it", t.text)
		}
		if v, ok := cellUsed[p.cell]; ok && v != t.cell {
			return fmt.Sprintf("the text %q is in another cell's place", t.text)
		}
		if v, ok := rowOf[t.row]; ok && v != p.row {
			return fmt.Sprintf("the text %q is not in its row", t.text)
		}
		if v, ok := rowUsed[p.row]; ok && v != t.row {
			return fmt.Sprintf("the text %q is in another row", t.text)
		}
		cellOf[t.cell], rowOf[t.row] = p.cell, p.row
		cellUsed[p.cell], rowUsed[p.row] = t.cell, t.row
	}
	return ""
}
