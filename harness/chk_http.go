package main

import (
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register(&Check{ID: "C24", Level: "exploration", Quick: 800, Thorough: 8000, Run: runC24,
		Rule: "a request; identified by method and kind of target, the spelling of its parameters and the status"})
}

// spell writes a parameter in one of the ways that mean the same.
func spell(r *Rng, s string, query bool) string {
	var b strings.Builder
	all := r.Pct(30)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		plain := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '-' || ch == '_' || ch == '.' || ch == '~'
		if plain && !all && !r.Pct(15) || ch == '.' {
			b.WriteByte(ch)
			continue
		}
		if query && ch == ' ' && r.Pct(50) {
			b.WriteByte('+')
			continue
		}
		fmt.Fprintf(&b, pick(r, []string{"%%%02X", "%%%02x"}), ch)
	}
	return b.String()
}

var oddIDs = []string{"a b", "ü-folder", "a+b", "a&b=c", "50%", "q?x", "h#1", "semi;colon", "it's", "\"q\"", "x,y", "a:b", "(p)", "facts", "folders", "%41", "a%20b", "tilde~", "日本", "A", "é.htm", "n.xhtml"}

func jsonType(t string) bool {
	m, _, err := mime.ParseMediaType(t)
	return err == nil && m == "application/json"
}

func runC24(w *World, c *Case) {
	p := stdProf()
	p.Roles, p.Ctxs, p.Concepts, p.Inline = [2]int{1, 2}, [2]int{1, 3}, [2]int{3, 6}, 60
	f := GenFiling(c.Rng, w, w.newID(), p)
	if c.Pct(60) {
		f.ID = pick(c.Rng, oddIDs) + fmt.Sprintf("-%d", c.Index)
	}
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	defer w.drop(f)
	send := func(method, target string) Resp { return w.do(method, target) }
	if c.Pct(40) {
		srv := httptest.NewServer(w.Router)
		defer srv.Close()
		c.Count("cases over a socket", 1)
		send = func(method, target string) Resp {
			req, err := http.NewRequest(method, srv.URL+target, nil)
			must(err)
			resp, err := http.DefaultTransport.RoundTrip(req)
			if err != nil {
				return Resp{Panic: err.Error()}
			}
			defer resp.Body.Close()
			b, err := io.ReadAll(resp.Body)
			if err != nil {
				return Resp{Panic: err.Error()}
			}
			return Resp{Status: resp.StatusCode, Type: resp.Header.Get("Content-Type"), Body: string(b)}
		}
	}
	note := func(kind, method, target string, resp Resp) {
		c.Eval()
		c.Distinct(kind, method, strings.ReplaceAll(target, fmt.Sprint(c.Index), ""), resp.Status)
		c.Count(fmt.Sprintf("%s answered %d", kind, resp.Status), 1)
	}
	isJSON := func(kind, target string) string {
		resp := send("GET", target)
		note(kind, "GET", target, resp)
		if !resp.ok() {
			c.Fail("%s %s: %s", kind, target, resp)
			return ""
		}
		if !jsonType(resp.Type) {
			c.Fail("%s %s is declared as %q", kind, target, resp.Type)
		}
		if !json.Valid([]byte(resp.Body)) {
			c.Fail("%s %s is not JSON: %s", kind, target, resp)
		}
		return resp.Body
	}
	isError := func(kind, target string) {
		resp := send("GET", target)
		note(kind, "GET", target, resp)
		if resp.Status < 400 {
			c.Fail("%s %s is answered %s", kind, target, resp)
		} else if strings.TrimSpace(resp.Body) == "" {
			c.Fail("%s %s is answered %d without a message", kind, target, resp.Status)
		}
	}
	base := func() string { return "/folders/" + spell(c.Rng, f.ID, false) }
	query := func(name, ctx string) string {
		q := []string{"name=" + spell(c.Rng, name, true), "contextref=" + spell(c.Rng, ctx, true)}
		if c.Pct(30) {
			q = append(q, "other=1")
		}
		shuffle(c.Rng, q)
		return "/facts?" + strings.Join(q, "&")
	}
	var cat OCatalog
	first := isJSON("catalog", "/folders/"+url.PathEscape(f.ID))
	if json.Unmarshal([]byte(first), &cat) != nil {
		c.Fail("catalog is not the documented JSON")
		return
	}
	for i := 0; i < 3; i++ {
		if got := isJSON("catalog", base()); got != first && got != "" {
			c.Fail("differently spelled requests for the catalog of %q are answered differently", f.ID)
		}
	}
	var hashes []string
	for _, e := range keysOf(cat.Networks) {
		for _, role := range keysOf(cat.Networks[e]) {
			hashes = append(hashes, cat.Networks[e][role])
		}
	}
	targets := []string{base()}
	for _, h := range sample(c.Rng, hashes, 3) {
		a := isJSON("network", "/folders/"+url.PathEscape(f.ID)+"/"+url.PathEscape(h))
		b := isJSON("network", base()+"/"+spell(c.Rng, h, false))
		if a != b {
			c.Fail("differently spelled requests for network %s of %q are answered differently", h, f.ID)
		}
		targets = append(targets, base()+"/"+h)
	}
	if f.Inline {
		for i := 0; i < 2; i++ {
			t := base() + "/" + spell(c.Rng, f.Entry, false)
			resp := send("GET", t)
			note("document", "GET", t, resp)
			if !resp.ok() || resp.Body != string(f.Doc) {
				c.Fail("document %s: %s", t, resp)
			} else if jsonType(resp.Type) {
				c.Fail("document %s is declared as %q", t, resp.Type)
			}
		}
		targets = append(targets, base()+"/"+f.Entry)
		n := 0
		for _, x := range f.Facts {
			name := f.TagName[x]
			if name == "" || n > 4 {
				continue
			}
			n++
			t := base() + query(name, x.Ctx.ID)
			body := isJSON("fact", t)
			ans := &OFact{}
			if json.Unmarshal([]byte(body), ans) == nil && (ans.Href != x.C.Href() || ans.Context.Period[langPure] != x.Ctx.period()) {
				c.Fail("fact %s is answered with %s in %s", t, ans.Href, ans.Context.Period[langPure])
			}
			targets = append(targets, t)
		}
	}
	t := base() + query("no:such", "none")
	resp := send("GET", t)
	note("missing fact", "GET", t, resp)
	switch {
	case resp.Status == 200 && strings.TrimSpace(resp.Body) != "" && resp.Body != "null":
		c.Fail("a fact that does not exist: %s", resp)
	case resp.Status == 200 && !jsonType(resp.Type):
		c.Fail("the empty answer to a fact is declared as %q", resp.Type)
	case resp.Status < 200 || resp.Status >= 300 && resp.Status < 400:
		c.Fail("a fact that does not exist: %s", resp)
	}
	// unknown or unloadable
	no := "no-such-" + spell(c.Rng, pick(c.Rng, oddIDs), false)
	isError("unknown folder", "/folders/"+no)
	isError("unknown folder", "/folders/"+no+"/abc")
	isError("unknown folder", "/folders/"+no+query("a:b", "c"))
	isError("unknown network", base()+"/"+spell(c.Rng, "nope"+pick(c.Rng, oddIDs), false))
	isError("unknown network", base()+"/"+pick(c.Rng, []string{"other.htm", "a.xhtml", "_", "abc.json", "facts2"}))
	broken := f.ID + "-broken"
	os.MkdirAll(w.folder(broken), 0755)
	defer os.RemoveAll(w.folder(broken))
	switch c.Intn(3) {
	case 0:
	case 1:
		os.WriteFile(filepath.Join(w.folder(broken), "_"), []byte("not json"), 0644)
	default:
		os.WriteFile(filepath.Join(w.folder(broken), "_"), []byte(`{"Entry":"gone`+pick(c.Rng, []string{".xml", ".htm"})+`"}`), 0644)
	}
	bt := "/folders/" + spell(c.Rng, broken, false)
	isError("unloadable folder", bt)
	isError("unloadable folder", bt+"/gone.htm")
	isError("unloadable folder", bt+query("a:b", "c"))
	// only GET
	for i := 0; i < 6; i++ {
		m := pick(c.Rng, []string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "PROPFIND"})
		t := pick(c.Rng, targets)
		resp := send(m, t)
		note("other method", m, t, resp)
		if resp.Status < 400 {
			c.Fail("%s %s is answered %s", m, t, resp)
		}
	}
	c.Sample("%q as %s", f.ID, base())
}
