package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register(&Check{ID: "C30", Level: "exploration", Quick: 1500, Thorough: 15000, Run: runC30,
		Rule: "a request outside the folder routes; identified by the kind of target, the spelling of its path and the status"})
}

func runC30(w *World, c *Case) {
	top := filepath.Join(w.Dir, "goldlord-midas")
	must(os.RemoveAll(top))
	must(os.MkdirAll(top, 0755))
	put := func(p, text string) {
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, []byte(text), 0644))
	}
	// the pages
	pages := map[string]string{}
	dirs := []string{"", "static/", "static/js/", "a b/", "folders2/", "é/", "..x/"}
	names := []string{"app.js", "style.css", "page.html", "favicon.ico", "noext", "a b.txt", "50%.txt", "é.html", "q?.js", "h#.js", "data.json", "x.htm", "x.xhtml", "...", ".hidden", "folders.js", "facts", "plus+.js"}
	for i := c.In(3, 12); i > 0; i-- {
		p := pick(c.Rng, dirs) + pick(c.Rng, names)
		pages[p] = fmt.Sprintf("page %d-%d of %s\r\n\x00é", c.Index, i, p)
	}
	if c.Pct(60) {
		pages["index.html"] = fmt.Sprintf("<html>start %d</html>", c.Index)
	}
	if c.Pct(40) {
		pages["static/index.html"] = fmt.Sprintf("<html>static %d</html>", c.Index)
	}
	for p, text := range pages {
		put(filepath.Join(top, p), text)
	}
	// what lies around them
	mark := fmt.Sprintf("outside-%d-%d", w.Idx, c.Index)
	outside := []string{"secret.txt", "goldlord-midas-old/secret.txt", "goldlord-midas.bak", "wd/secret.txt", "wd/folders/" + mark + "/secret.txt", "gts/secret.txt", "index.html", "app.js"}
	for _, p := range outside {
		put(filepath.Join(w.Dir, p), "kept back "+mark)
	}
	defer func() {
		for _, p := range outside {
			os.Remove(filepath.Join(w.Dir, p))
		}
		os.RemoveAll(filepath.Join(w.WD, "folders", mark))
		os.RemoveAll(filepath.Join(w.Dir, "goldlord-midas-old"))
	}()
	send := func(target string) (Resp, string) {
		req, err := http.NewRequest("GET", "http://server"+target, nil)
		if err != nil {
			return Resp{Status: 400}, ""
		}
		req.RequestURI = target
		rec := httptest.NewRecorder()
		w.Router.ServeHTTP(rec, req)
		return Resp{Status: rec.Code, Type: rec.Header().Get("Content-Type"), Body: rec.Body.String()}, rec.Header().Get("Location")
	}
	if c.Pct(30) {
		srv := httptest.NewServer(w.Router)
		defer srv.Close()
		c.Count("cases over a socket", 1)
		send = func(target string) (Resp, string) {
			req, err := http.NewRequest("GET", srv.URL, nil)
			must(err)
			req.URL.Opaque = target
			if i := strings.IndexByte(target, '?'); i >= 0 {
				req.URL.Opaque, req.URL.RawQuery = target[:i], target[i+1:]
			}
			resp, err := http.DefaultTransport.RoundTrip(req)
			if err != nil {
				return Resp{Panic: err.Error()}, ""
			}
			defer resp.Body.Close()
			b, err := io.ReadAll(resp.Body)
			if err != nil {
				return Resp{Panic: err.Error()}, ""
			}
			return Resp{Status: resp.StatusCode, Body: string(b)}, resp.Header.Get("Location")
		}
	}
	get := func(kind, target string) Resp {
		var resp Resp
		at := target
		for hops := 0; hops < 5; hops++ {
			var to string
			resp, to = send(at)
			c.Eval()
			if strings.Contains(resp.Body, "kept back "+mark) {
				c.Fail("%s %s (asked as %s) shows a file outside the pages: %s", kind, target, at, resp)
			}
			if resp.Status < 300 || resp.Status > 399 || to == "" {
				break
			}
			base, err := url.Parse("http://server" + at)
			must(err)
			next, err := base.Parse(to)
			if err != nil || next.Host != "server" && !strings.HasPrefix(next.Host, "127.0.0.1") {
				break
			}
			at = next.RequestURI()
		}
		c.Distinct(kind, strings.ReplaceAll(target, mark, ""), resp.Status)
		c.Count(fmt.Sprintf("%s answered %d", kind, resp.Status), 1)
		return resp
	}
	spelled := func(p string) string {
		parts := strings.Split(p, "/")
		for i := range parts {
			parts[i] = spell(c.Rng, parts[i], false)
		}
		return "/" + strings.Join(parts, "/")
	}
	for _, p := range keysOf(pages) {
		target := spelled(p)
		if c.Pct(20) {
			target += "?v=1"
		}
		resp := get("page", target)
		if !resp.ok() || resp.Body != pages[p] {
			c.Fail("page %q asked as %s: %s instead of %q", p, target, resp, pages[p])
		}
		near := pick(c.Rng, []string{p + "x", "x" + p, p[:len(p)-1], "goldlord-midas/" + p, strings.ToUpper(p), p + "/x"})
		if _, ok := pages[near]; !ok && !strings.HasSuffix(near, "/") && !isDir(filepath.Join(top, near)) {
			if resp := get("missing page", spelled(near)); resp.Status < 400 {
				c.Fail("there is no page %q, but it is answered %s", near, resp)
			}
		}
	}
	for _, d := range []string{"", "static/"} {
		if text, ok := pages[d+"index.html"]; ok {
			if resp := get("start page", "/"+d); !resp.ok() || resp.Body != text {
				c.Fail("start page of %q: %s instead of %q", d, resp, text)
			}
		}
	}
	ups := []string{"..", "%2e%2e", "%2E.", ".%2e", "%252e%252e"}
	seps := []string{"/", "/", "//", "%2f", "%5c", "\\", "/./", "/%2e/"}
	for i := 0; i < 8; i++ {
		t := pick(c.Rng, []string{"/", "//", "/static", "/static/js", "/folders", "/folders/x", "/goldlord-midas", "/%2f"})
		for k := c.In(1, 4); k > 0; k-- {
			t += pick(c.Rng, seps) + pick(c.Rng, ups)
		}
		what := pick(c.Rng, outside)
		t += pick(c.Rng, seps) + pick(c.Rng, []string{what, strings.ReplaceAll(what, "/", "%2f"), filepath.Base(w.Dir) + "/" + what})
		get("way out", t)
	}
	for _, t := range []string{w.Dir + "/secret.txt", "/" + w.Dir + "/secret.txt", "/secret.txt", "/wd/secret.txt", "/gts/secret.txt", "/wd/folders/" + mark + "/secret.txt", "/folders/" + mark + "/secret.txt", "/folders/../secret.txt", "/static/../../secret.txt"} {
		get("place outside", t)
	}
	c.Sample("%v", keysOf(pages))
}

func isDir(p string) bool {
	info, err := os.Stat(p)
	return err == nil && info.IsDir()
}
