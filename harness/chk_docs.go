package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/net/html"
)

func init() {
	register(&Check{ID: "C22", Level: "exploration", Quick: 2500, Thorough: 30000, Run: runC22,
		Rule: "a served source document with markup of its own; identified by the markup and the files beside it"})
}

func someBytes(r *Rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

func picture(r *Rng) []byte {
	body := someBytes(r, pick(r, []int{0, 1, 2, 3, 7, 64, 600, 3000, 1, 5, 64, 600, 3000, 70, pick(r, []int{40000, 5000, 140000})}))
	if r.Pct(50) {
		return append([]byte("\x89PNG\x0D\x0A\x1A\x0A"), body...)
	}
	return append([]byte("\xFF\xD8\xFF"), append([]byte{0xE0}, body...)...)
}

func notPicture(r *Rng) []byte {
	switch r.Intn(4) {
	case 0:
		return append([]byte("GIF89a"), someBytes(r, 40)...)
	case 1:
		return []byte("plain text, not a picture")
	case 2:
		return []byte("\x89PNG no")
	}
	return []byte("%PDF-1.4 x")
}

func dataURI(b []byte) string {
	if b[0] == 0x89 {
		return "data:image/png;base64," + base64.StdEncoding.EncodeToString(b)
	}
	return "data:image/jpeg;base64," + base64.StdEncoding.EncodeToString(b)
}

func isPicture(b []byte) bool {
	return bytes.HasPrefix(b, []byte("\x89PNG\x0D\x0A\x1A\x0A")) || bytes.HasPrefix(b, []byte("\xFF\xD8\xFF"))
}

func runC22(w *World, c *Case) {
	p := stdProf()
	p.Inline, p.Roles, p.Ctxs, p.Concepts = 100, [2]int{1, 1}, [2]int{1, 2}, [2]int{2, 5}
	f := GenFiling(c.Rng, w, w.newID(), p)
	if c.Pct(20) {
		f.Entry = pick(c.Rng, []string{"my report.htm", "a+b.xhtml", "ü.htm", "x.y.htm", "R1.HTM.htm"})
	}
	f.Images = map[string][]byte{}
	names := []string{"pic.png", "photo.jpg", "logo.dat", "noext", "a b.png", "g001.jpeg", "UPPER.PNG", "x.htm.png", "q&a.png", "é.png"}
	for _, n := range sample(c.Rng, names, c.Intn(5)) {
		if c.Pct(70) {
			f.Images[n] = picture(c.Rng)
		} else {
			f.Images[n] = notPicture(c.Rng)
		}
	}
	any := false
	for _, b := range f.Images {
		any = any || isPicture(b)
	}
	var body strings.Builder
	refs := append([]string{"missing.png", "data:image/png;base64,AAAA", "http://elsewhere.example/other.png", "PIC.PNG", "pic.pn", "pic.png.bak", ""}, names...)
	for i := c.In(1, 8); i > 0; i-- {
		t := fmt.Sprintf("t%d", c.Intn(1000))
		ref := pick(c.Rng, refs)
		if c.Pct(15) {
			ref = "./" + ref
		}
		ref = escAttr(ref)
		switch c.Intn(14) {
		case 0, 1, 2, 3, 4:
			img := fmt.Sprintf(`<img src="%s" alt="%s"/>`, ref, pick(c.Rng, []string{"pic.png", t, "&lt;td&gt;", ""}))
			if c.Pct(30) {
				img = fmt.Sprintf(`<img class="x" id="%s" src="%s"></img>`, t, ref)
			}
			if c.Pct(25) {
				img += pick(c.Rng, []string{"", " "}) + fmt.Sprintf(`<img src="%s"/>`, escAttr(pick(c.Rng, refs)))
			}
			body.WriteString("<p>" + img + "</p>")
		case 5:
			body.WriteString(`<a href="` + ref + `">` + t + `</a>`)
		case 6:
			body.WriteString("<!-- <img src=\"" + strings.ReplaceAll(ref, "-", "_") + "\"/> -->")
		case 7:
			body.WriteString(`<table><tbody><tr><td style="background:url(` + ref + `)">` + t + `</td><td><img src="` + ref + `"/></td></tr></tbody></table>`)
		case 8:
			body.WriteString("<p title=\"" + ref + "\">5 &lt; 6 &amp;amp; " + t + " &#160; é</p>\r\n")
		case 9:
			body.WriteString(`<div><div><span><img alt="" src="` + ref + `" srcset="` + ref + `"/></span></div></div>`)
		case 10:
			body.WriteString(`<input type="image" src="` + ref + `"></input>`)
		case 11:
			body.WriteString("<pre> keep   this\n  spacing </pre>")
		case 12:
			body.WriteString(`<p><IMG SRC="` + ref + `"></IMG></p>`)
		default:
			body.WriteString("<ul><li>" + t + "</li><li><img src='" + strings.ReplaceAll(ref, "'", "") + "'/></li></ul>")
		}
	}
	f.DocBody = body.String()
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	defer w.drop(f)
	if c.Pct(30) {
		// Things that are no files of the filing: a folder, and a file that cannot be read.
		sub := filepath.Join(w.folder(f.ID), pick(c.Rng, []string{"0", "aa", "pics", "zz", "missing.png"}))
		must(os.MkdirAll(sub, 0755))
		for _, n := range sample(c.Rng, names, 2) {
			must(os.WriteFile(filepath.Join(sub, n), picture(c.Rng), 0644))
		}
	}
	if c.Pct(15) {
		must(os.Symlink("nowhere", filepath.Join(w.folder(f.ID), pick(c.Rng, []string{"00.png", "nothing.jpg"}))))
	}
	for i := 0; i < 2; i++ {
		resp := w.get(netURL(f.ID, f.Entry))
		c.Eval()
		if !resp.ok() {
			c.Fail("source document %q: %s", f.Entry, resp)
			return
		}
		c.Distinct(f.DocBody, len(f.Images), any)
		if !any {
			c.Count("documents without pictures", 1)
			if resp.Body != string(f.Doc) {
				c.Fail("source document of a folder without pictures is not served as it is: %s", firstDiff(string(f.Doc), resp.Body))
			}
			continue
		}
		c.Count("documents with pictures", 1)
		want, err := html.Parse(bytes.NewReader(f.Doc))
		must(err)
		got, err := html.Parse(strings.NewReader(resp.Body))
		if err != nil {
			c.Fail("source document: %v", err)
			return
		}
		n := embed(want, f.Images)
		c.Count("pictures embedded", n)
		if a, b := flatHTML(want), flatHTML(got); a != b {
			c.Fail("source document differs: %s", firstDiff(a, b))
		}
		c.Sample("%s with %v", clipText(f.DocBody, 200), keysOf(f.Images))
	}
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	return fmt.Sprintf("expected %q, got %q", clipText(a[from:], 300), clipText(b[from:], 300))
}

func embed(n *html.Node, images map[string][]byte) int {
	count := 0
	if n.Type == html.ElementNode && n.Data == "img" {
		for i, a := range n.Attr {
			if a.Key == "src" {
				if b, ok := images[strings.TrimPrefix(a.Val, "./")]; ok && isPicture(b) {
					n.Attr[i].Val = dataURI(b)
					count++
				}
			}
		}
	}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		count += embed(k, images)
	}
	return count
}

// flatHTML lists the nodes of a tree, with adjoining text joined.
func flatHTML(n *html.Node) string {
	var b strings.Builder
	var walk func(n *html.Node)
	text := ""
	flush := func() {
		if text != "" {
			fmt.Fprintf(&b, "text %q\n", text)
		}
		text = ""
	}
	walk = func(n *html.Node) {
		switch n.Type {
		case html.TextNode:
			text += n.Data
			return
		case html.ElementNode:
			flush()
			fmt.Fprintf(&b, "<%s", n.Data)
			var attrs []string
			for _, a := range n.Attr {
				attrs = append(attrs, fmt.Sprintf(" %s:%s=%q", a.Namespace, a.Key, a.Val))
			}
			b.WriteString(strings.Join(sorted(attrs), "") + "\n")
		case html.CommentNode:
			flush()
			fmt.Fprintf(&b, "comment %q\n", n.Data)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k)
		}
		if n.Type == html.ElementNode {
			flush()
			b.WriteString("</" + n.Data + "\n")
		}
	}
	walk(n)
	flush()
	return b.String()
}
