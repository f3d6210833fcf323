package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

func init() {
	register(&Check{ID: "C02", Level: "exploration", Quick: 160, Thorough: 1600, Run: runC02,
		Rule:        "a response within a history of earlier and concurrent requests; identified by the request and its place in the history",
		Assumptions: []string{"interleavings are those the scheduler happens to choose"}})
	register(&Check{ID: "C03", Level: "fault_enumeration", Quick: 600, Thorough: 6000, Run: runC03, NoShared: true,
		Rule: "a request made while a file is missing or unreadable, or after its repair; identified by file, damage, request and place in the history"})
}

// lookAlike adds a concept and a context whose names run together with existing ones.
func lookAlike(c *Case, f *Filing) {
	var xs []*Fact
	for _, x := range f.Facts {
		if f.Tagged[x] && !x.Nil && !x.C.Sch.Global {
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 {
		return
	}
	x := pick(c.Rng, xs)
	sep := pick(c.Rng, []string{"", "", "_", "-", ".", "Q"})
	mid := pick(c.Rng, []string{"Q", "c", "x1"})
	b := *x.C
	b.Name += sep + mid
	b.ID += "." + mid + "0"
	for _, o := range f.Concepts() {
		if o.Name == b.Name && o.Sch.NS == b.Sch.NS || o.Sch == b.Sch && o.ID == b.ID {
			return
		}
	}
	ctx := *x.Ctx
	ctx.ID = mid + sep + x.Ctx.ID
	ctx.Start, ctx.End = "", "2001-01-01"
	for _, o := range f.Ctxs {
		if o.ID == ctx.ID {
			return
		}
	}
	b.Sch.Concepts = append(b.Sch.Concepts, &b)
	f.Ctxs = append(f.Ctxs, &ctx)
	add := func(cc *Concept, ct *Context, val string) {
		y := &Fact{C: cc, Ctx: ct, Unit: x.Unit, Dec: x.Dec, Value: val, ID: "look" + val}
		f.Facts = append(f.Facts, y)
		f.Tagged[y] = true
	}
	add(x.C, &ctx, "7001")
	add(&b, x.Ctx, "7002")
	f.facts = nil
}

var seps = []string{"", "_", "-", " ", ".", ":", "|", "+", "#", ",", "\" \"", "%2F", "&", "?", "\\", ";", "%", "facts", "\x01", " catalog ", "="}

func runC02(w *World, c *Case) {
	p := stdProf()
	p.Inline, p.Ctxs, p.Concepts, p.Roles, p.Fill = 100, [2]int{2, 4}, [2]int{3, 8}, [2]int{1, 2}, 70
	w.n++
	stem := fmt.Sprintf("L%d%s", w.n, pick(c.Rng, []string{"", "a", "a b", "ü", "(1)"}))
	var fs []*Filing
	put := func(id, entry string) *Filing {
		for _, o := range fs {
			if o.ID == id {
				return nil
			}
		}
		if len(id) > 200 {
			return nil
		}
		f := GenFiling(c.Rng, w, id, p)
		if entry != "" {
			f.Entry = entry
		}
		lookAlike(c, f)
		f.WriteAny(w.folder(id), c.Rng)
		fs = append(fs, f)
		return f
	}
	ext := pick(c.Rng, []string{".htm", ".xhtml"})
	base := put(stem, "doc"+ext)
	defer func() {
		for _, f := range fs {
			w.drop(f)
		}
	}()
	c.FilingDir = w.folder(base.ID)
	scout := w.fresh(c)
	first := scout.ask(folderURL(base.ID))
	scout.stop()
	if len(first) == 0 || !first[0].ok() {
		c.Fail("catalog: %v", first)
		return
	}
	var hashes []string
	cat := &OCatalog{}
	json.Unmarshal([]byte(first[0].Body), cat)
	for _, e := range keysOf(cat.Networks) {
		for _, role := range keysOf(cat.Networks[e]) {
			hashes = append(hashes, cat.Networks[e][role])
		}
	}
	// folders that look like something else
	s := pick(c.Rng, seps)
	var tag *Fact
	for _, x := range base.Facts {
		if base.TagName[x] != "" {
			tag = x
		}
	}
	for i := c.In(2, 4); i > 0; i-- {
		switch c.Intn(7) {
		case 0:
			if len(hashes) > 0 {
				put(stem+s+pick(c.Rng, hashes), "")
			}
		case 1:
			put(stem+s+"doc"+ext, "")
		case 2:
			put(stem+s+"do", "c"+ext)
		case 3:
			put(stem+s, "doc"+ext)
		case 4:
			if tag != nil {
				put(stem+s+base.TagName[tag], "")
				put(stem+s+base.TagName[tag]+s+tag.Ctx.ID, "")
			}
		case 5:
			put(strings.ToLower(stem)+s, "doc"+ext)
		default:
			put(stem+"x", "doc"+ext)
		}
	}
	var pool []string
	for _, f := range fs {
		u := folderURL(f.ID)
		pool = append(pool, u, u+"/"+escPath(f.Entry))
		one := w.fresh(c)
		resp := one.ask(u)
		one.stop()
		if len(resp) == 0 || !resp[0].ok() {
			c.Fail("catalog of %q: %v", f.ID, resp)
			return
		}
		rests := targetsOf(f, resp[0].Body)
		for _, rest := range sample(c.Rng, rests, 4) {
			pool = append(pool, u+rest)
		}
		for _, h := range sample(c.Rng, hashes, 1) {
			pool = append(pool, u+"/"+h)
		}
		n := 0
		for i := len(f.Facts) - 1; i >= 0 && n < 4; i-- {
			x := f.Facts[i]
			name := f.TagName[x]
			if name == "" {
				continue
			}
			n++
			ctx := x.Ctx.ID
			pool = append(pool, factURL(f.ID, name, ctx))
			switch c.Intn(5) {
			case 0:
				pool = append(pool, factURL(f.ID, name+s+ctx, ""))
			case 1:
				pool = append(pool, factURL(f.ID, "", name+s+ctx))
			case 2:
				k := c.In(1, len(ctx))
				pool = append(pool, factURL(f.ID, name+ctx[:k], ctx[k:]))
			case 3:
				k := c.In(1, len(name))
				pool = append(pool, factURL(f.ID, name[:k], name[k:]+ctx))
			default:
				pool = append(pool, factURL(f.ID, ctx, name))
			}
		}
	}
	// the history: several clients, requests repeated
	var mu sync.Mutex
	got := map[string][]Resp{}
	var hist []string
	run := func(targets []string) {
		var wg sync.WaitGroup
		gate := make(chan bool)
		for k := range targets {
			wg.Add(1)
			go func(t string) {
				defer wg.Done()
				<-gate
				r := w.get(t)
				mu.Lock()
				got[t] = append(got[t], r)
				hist = append(hist, t)
				mu.Unlock()
			}(targets[k])
		}
		close(gate)
		wg.Wait()
	}
	for round := 0; round < 3; round++ {
		for i := 0; i < len(pool); {
			k := pick(c.Rng, []int{1, 1, 2, 4, 12})
			var batch []string
			for ; k > 0; k-- {
				t := pick(c.Rng, pool)
				batch = append(batch, t)
				if c.Pct(30) {
					batch = append(batch, t)
				}
				i++
			}
			run(batch)
		}
	}
	place := map[string]int{}
	for i, t := range hist {
		if _, ok := place[t]; !ok {
			place[t] = i
		}
	}
	for _, t := range keysOf(got) {
		srv := w.fresh(c)
		resps := srv.ask(t)
		srv.stop()
		if len(resps) == 0 {
			return
		}
		want := resps[0]
		c.Count("requests compared with a fresh server", 1)
		for _, r := range got[t] {
			c.Eval()
			if r.Status != want.Status && (r.ok() || want.ok()) {
				c.Fail("%s was answered %s, but a fresh server answers %s; requests until then %q", t, r, want, clip(hist))
				break
			}
			if r.ok() && r.Body != want.Body {
				c.Fail("%s was answered with something else than a fresh server answers: %s; requests until then %q", t, firstDiff(want.Body, r.Body), clip(hist))
				break
			}
			if r.ok() && jsonType(r.Type) != jsonType(want.Type) {
				c.Fail("%s was answered as %q, but a fresh server answers as %q", t, r.Type, want.Type)
				break
			}
		}
		c.Distinct(t, place[t])
	}
	c.Sample("%d folders like %q, %d different requests, %d in all", len(fs), fs[len(fs)-1].ID, len(got), len(hist))
}

func escPath(s string) string { return folderURL(s)[len("/folders/"):] }

// C03

type damage struct {
	what  string
	file  string // relative to the world
	apply func(path string, orig []byte)
}

func spoil(r *Rng, xml bool) (string, func(path string, orig []byte)) {
	write := func(p string, b []byte) { must(os.WriteFile(p, b, 0644)) }
	kinds := []string{"missing", "missing", "empty", "truncated", "malformed", "a directory"}
	k := pick(r, kinds)
	n := r.Intn(1 << 20)
	return k, func(p string, orig []byte) {
		must(os.RemoveAll(p))
		switch k {
		case "missing":
		case "empty":
			write(p, nil)
		case "truncated":
			body := strings.TrimRight(string(orig), " \r\n\t")
			keep := n % len(body)
			if xml && n%3 == 0 {
				keep = strings.LastIndex(body, "<")
			}
			write(p, []byte(body[:keep]))
		case "malformed":
			if xml {
				body := string(orig)
				i := strings.LastIndex(body, "</")
				write(p, []byte(body[:i]+"</nosuch>"))
			} else {
				write(p, append([]byte("{"), orig...))
			}
		case "a directory":
			must(os.MkdirAll(p, 0755))
		}
	}
}

func runC03(w0 *World, c *Case) {
	w := newWorldR(filepath.Join(w0.Dir, fmt.Sprint("c", c.Index)), c.Index, c.Rng)
	defer os.RemoveAll(w.Dir)
	p := stdProf()
	p.Inline, p.Ctxs, p.Concepts, p.Roles = 60, [2]int{1, 3}, [2]int{3, 6}, [2]int{1, 2}
	f := w.add(c, p)
	other := w.add(c, p)
	c.FilingDir = w.folder(f.ID)
	// the right answers
	ref := w.fresh(c)
	first := ref.ask(folderURL(f.ID))
	if len(first) == 0 || !first[0].ok() {
		c.Fail("catalog: %v", first)
		return
	}
	rests := append([]string{""}, sample(c.Rng, targetsOf(f, first[0].Body), 5)...)
	want := map[string]string{}
	for _, rest := range rests {
		r := ref.ask(folderURL(f.ID) + rest)
		if len(r) == 0 || !r[0].ok() {
			c.Fail("%s: %v", rest, r)
			return
		}
		want[rest] = r[0].Body
	}
	ref.stop()
	// which files are damaged, one after the other
	dir := filepath.Join("wd", "folders", f.ID)
	utr := filepath.Join("gts", "concepts", "http", "www.xbrl.org", "utr", "utr.xml")
	inst := filepath.Join(dir, instanceName(f))
	files := []string{filepath.Join(dir, "_"), inst, inst, utr}
	if f.Inline {
		files = append(files, filepath.Join(dir, f.Entry))
	}
	files = sample(c.Rng, files, c.In(1, 2))
	if len(files) == 2 && files[0] == files[1] {
		files = files[:1]
	}
	folderGone := c.Pct(20)
	orig := map[string][]byte{}
	broken := map[string]string{}
	breakIt := func(file string) {
		path := filepath.Join(w.Dir, file)
		if orig[file] == nil {
			b, err := os.ReadFile(path)
			must(err)
			orig[file] = b
		}
		k, apply := spoil(c.Rng, filepath.Base(file) != "_")
		apply(path, orig[file])
		broken[file] = k
	}
	repair := func(file string) {
		path := filepath.Join(w.Dir, file)
		must(os.RemoveAll(path))
		must(os.WriteFile(path, orig[file], 0644))
		delete(broken, file)
	}
	full, away := w.folder(f.ID), filepath.Join(w.Dir, "away")
	for _, file := range files {
		breakIt(file)
	}
	if folderGone {
		must(os.Rename(full, away))
	}
	srv := w.fresh(c)
	defer srv.stop()
	var history []string
	failing := func() bool {
		state := fmt.Sprint(broken)
		if folderGone {
			state = "folder missing"
		}
		for n := c.In(1, 4); n > 0; n-- {
			var batch, asked []string
			for k := pick(c.Rng, []int{1, 1, 1, 3}); k > 0; k-- {
				rest := pick(c.Rng, rests)
				asked = append(asked, rest)
				batch = append(batch, folderURL(f.ID)+rest)
			}
			resps := srv.ask(batch...)
			if resps == nil {
				return false
			}
			for i, r := range resps {
				c.Eval()
				c.Count("requests while broken", 1)
				c.Distinct(state, kindOf(asked[i]), len(history))
				if r.Status < 400 {
					c.Fail("%q was answered %s although %s; history %q", batch[i], r, state, history)
					return false
				}
				history = append(history, fmt.Sprintf("%s with %s: %d", kindOf(asked[i]), state, r.Status))
			}
			if c.Pct(30) {
				if r := srv.ask(folderURL(other.ID)); r != nil && broken[utr] == "" && !r[0].ok() {
					c.Fail("the other folder was answered %s; history %q", r[0], history)
					return false
				}
			}
		}
		return true
	}
	if !failing() {
		return
	}
	if folderGone {
		must(os.Rename(away, full))
		folderGone = false
		history = append(history, "folder put back")
		if !failing() {
			return
		}
	}
	for len(broken) > 0 {
		file := pick(c.Rng, sorted(keysOf(broken)))
		if c.Pct(30) {
			breakIt(file)
			history = append(history, "damaged again: "+filepath.Base(file))
		} else {
			repair(file)
			history = append(history, "repaired "+filepath.Base(file))
		}
		if len(broken) > 0 && !failing() {
			return
		}
	}
	for k := 0; k < 2; k++ {
		shuffle(c.Rng, rests)
		for _, rest := range rests {
			r := srv.ask(folderURL(f.ID) + rest)
			if r == nil {
				return
			}
			c.Eval()
			c.Count("requests after repair", 1)
			c.Distinct("repaired", kindOf(rest), fmt.Sprint(history))
			if !r[0].ok() || r[0].Body != want[rest] {
				c.Fail("after repair %s was answered %s: %s; history %q", kindOf(rest), r[0], firstDiff(want[rest], r[0].Body), history)
				return
			}
		}
	}
	c.Sample("%q", clip(history))
}

func kindOf(rest string) string {
	switch {
	case rest == "":
		return "catalog"
	case strings.HasPrefix(rest, "/facts?"):
		return "fact"
	case strings.HasSuffix(rest, "htm"), strings.HasSuffix(rest, "xhtml"):
		return "document"
	}
	return "network"
}
