//go:build check_C19

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"

	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	register(&Check{ID: "C19", Level: "exploration", Quick: 4000, Thorough: 60000, Run: runC19,
		Rule: "one folder with references that leave it, watched for reads of files outside, or one taxonomy address mapped to a file; identified by where the reference stands, how it is spelled and what it aims at, or by the address",
		Assumptions: []string{"reads of files are reported by the kernel (inotify) for the files watched: those the references aim at",
			"symbolic links inside a folder are not generated"}})
}

const canaryMark = "canary-4711"

// bait is the files outside that references aim at, and the watch on them.
type bait struct {
	fd    int
	paths []string // of directories holding the files
	files map[int32]string
}

var theBait = map[*World]*bait{}

func (w *World) bait() *bait {
	if b := theBait[w]; b != nil {
		return b
	}
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	must(err)
	b := &bait{fd: fd, files: map[int32]string{}}
	for _, d := range []string{w.Dir, w.WD, filepath.Join(w.WD, "folders"), filepath.Join(w.WD, "folders", "victim"), filepath.Join(w.WD, "outside"), filepath.Join(w.Dir, "elsewhere", "deep")} {
		must(os.MkdirAll(d, 0755))
		b.paths = append(b.paths, d)
		for name, data := range canaries() {
			p := filepath.Join(d, name)
			must(os.WriteFile(p, data, 0644))
			wd, err := syscall.InotifyAddWatch(fd, p, syscall.IN_ACCESS)
			must(err)
			b.files[int32(wd)] = p
		}
	}
	theBait[w] = b
	return b
}

// reads are the files read since the last call.
func (b *bait) reads() []string {
	var ret []string
	buf := make([]byte, 64*1024)
	for {
		n, err := syscall.Read(b.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 || err != nil {
			return ret
		}
		for i := 0; i+16 <= n; {
			wd := int32(binary.LittleEndian.Uint32(buf[i:]))
			mask := binary.LittleEndian.Uint32(buf[i+4:])
			size := int(binary.LittleEndian.Uint32(buf[i+12:]))
			if mask&syscall.IN_ACCESS != 0 {
				ret = append(ret, b.files[wd])
			}
			i += 16 + size
		}
	}
}

func canaries() map[string][]byte {
	lay := plainLayout(newRng("canary"))
	schema := el(nsXSD, "schema", at("targetNamespace", "urn:"+canaryMark),
		el(nsXSD, "annotation", el(nsXSD, "appinfo", el(nsLINK, "roleType", at("id", canaryMark), at("roleURI", "http://"+canaryMark+".example/role"), el(nsLINK, "definition", Text(canaryMark))))),
		el(nsXSD, "element", at("id", canaryMark), at("name", canaryMark), atQ("", "type", QN{nsXBRLI, "stringItemType"})))
	ret := map[string][]byte{"secret.xsd": writeXML(schema, lay)}
	lb := el(nsLINK, "linkbase")
	for _, k := range linkKindNames {
		lb.add(el(nsLINK, k+"Link", xl("type", "extended"), xl("role", "http://"+canaryMark+".example/role"), xl("title", canaryMark)))
	}
	ret["secret-lb.xml"] = writeXML(lb, lay)
	inst := el(nsXBRLI, "xbrl", el(nsXBRLI, "context", at("id", canaryMark), el(nsXBRLI, "entity", el(nsXBRLI, "identifier", at("scheme", "urn:s"), Text(canaryMark))), el(nsXBRLI, "period", el(nsXBRLI, "instant", Text("2020-01-01")))))
	ret["secret.xml"] = writeXML(inst, lay)
	ret["secret.htm"] = []byte("<html xmlns=\"" + nsXHTML + "\"><body>" + canaryMark + "</body></html>")
	ret["secret.htm.xml"] = ret["secret.xml"]
	ret["secret.png"] = append([]byte("\x89PNG\x0D\x0A\x1A\x0A"), canaryMark...)
	b, _ := json.Marshal(map[string]string{"Entry": "secret.xml"})
	ret["_"] = b
	return ret
}

var linkKindNames = []string{"presentation", "definition", "calculation", "label"}

// aim spells a reference from a folder to a file outside.
func (w *World) aim(r *Rng, id, target string) (string, string) {
	from := w.folder(id)
	rel, err := filepath.Rel(from, target)
	must(err)
	fromStore, err := filepath.Rel(filepath.Join(w.GTS, "concepts", "http", "h.example"), target)
	must(err)
	ups := strings.Count(fromStore, "../")
	rest := strings.TrimLeft(fromStore, "./")
	esc := strings.ReplaceAll
	switch k := r.Intn(23); k {
	case 0, 1:
		return "relative", rel
	case 2:
		return "relative with a dot", "./" + rel
	case 3:
		return "through a directory", "sub/../" + rel
	case 4:
		return "absolute", target
	case 5:
		return "absolute with slashes", "//" + target
	case 6:
		return "file address", "file://" + target
	case 7:
		return "percent-encoded", esc(rel, "/", "%2F")
	case 8:
		return "percent-encoded dots", esc(rel, "..", "%2e%2e")
	case 9:
		return "backslashes", esc(rel, "/", "\\")
	case 10:
		return "doubled slashes", esc(rel, "/", "//")
	case 11:
		return "address with dot segments", "http://h.example/" + fromStore
	case 12:
		return "address with encoded dot segments", "http://h.example/" + esc(fromStore, "../", "%2e%2e/")
	case 13:
		return "address with encoded slashes", "http://h.example/" + esc(fromStore, "/", "%2f")
	case 14:
		return "host of dots", "http://../" + strings.Repeat("../", max(ups-1, 0)) + rest
	case 15:
		return "host that is a path", "http://" + url.PathEscape("../../..") + "/" + rest
	case 16:
		return "address with user and port", "http://u:p@h.example:80/x/../" + fromStore
	case 17:
		return "scheme only", "http:" + rel
	case 18:
		return "no host", "http:///" + strings.Repeat("../", 3) + rest
	case 19:
		return "twice percent-encoded", esc(esc(rel, "..", "%252e%252e"), "/", pick(r, []string{"/", "%252f"}))
	case 20:
		return "address with twice encoded dot segments", "http://h.example/" + esc(fromStore, "../", "%252e%252e/")
	case 21:
		return "address with twice encoded slashes", "http://h.example/" + esc(fromStore, "/", "%252f")
	default:
		return "dots after a name", "sub/x/../../" + rel
	}
}

func runC19(w *World, c *Case) {
	b := w.bait()
	r := c.Rng
	if c.Index%4 == 0 {
		c.addresses(w)
		return
	}
	p := stdProf()
	p.Ctxs, p.Concepts = [2]int{1, 3}, [2]int{2, 6}
	p.Roles = [2]int{1, 2}
	p.Inline = 40
	f := GenFiling(r, w, w.newID(), p)
	dir := w.folder(f.ID)
	c.FilingDir = dir
	defer w.drop(f)
	if e := b.reads(); len(e) > 0 {
		c.Fail("a file outside was read after the previous request had been answered: %s", e)
		return
	}
	must(os.MkdirAll(filepath.Join(dir, "sub", "x"), 0755))
	var tags []string
	add := func(site, file string) string {
		how, href := w.aim(r, f.ID, filepath.Join(pick(r, b.paths), file))
		tags = append(tags, site+": "+how)
		c.Distinct(site, how, strings.Count(href, ".."))
		return href
	}
	f.WriteAny(dir, r)
	rewrite := func(doc *Node, name string) {
		must(os.WriteFile(filepath.Join(dir, name), writeXML(doc, anyLayout(r)), 0644))
	}
	for i := r.In(1, 4); i > 0; i-- {
		s := pick(r, f.Locals())
		switch r.Intn(8) {
		case 0:
			doc := f.instanceDoc()
			doc.add(el(nsLINK, "schemaRef", xl("type", "simple"), xl("href", add("schemaRef", "secret.xsd"))))
			rewrite(doc, instanceName(f))
		case 1:
			doc := schemaDoc(s)
			doc.add(el(nsXSD, "import", at("namespace", "urn:"+canaryMark), at("schemaLocation", add("import", "secret.xsd"))))
			rewrite(doc, s.Loc)
		case 2:
			doc := schemaDoc(s)
			doc.add(el(nsXSD, "include", at("schemaLocation", add("include", "secret.xsd"))))
			rewrite(doc, s.Loc)
		case 3, 4:
			doc := schemaDoc(s)
			k := pick(r, linkKindNames)
			doc.add(el(nsXSD, "annotation", el(nsXSD, "appinfo", el(nsLINK, "linkbaseRef", xl("type", "simple"), xl("arcrole", arcLinkbase), xl("role", refBase+k+"LinkbaseRef"), xl("href", add(k+" linkbaseRef", "secret-lb.xml"))))))
			rewrite(doc, s.Loc)
		case 5:
			e, _ := json.Marshal(map[string]string{"Entry": add("entry", pick(r, []string{"secret.xml", "secret.htm"}))})
			must(os.WriteFile(filepath.Join(dir, "_"), e, 0644))
		case 6:
			if f.Inline {
				must(os.WriteFile(filepath.Join(dir, "own.png"), picture(r), 0644))
				img := "<img src=\"" + escAttr(add("picture", "secret.png")) + "\"/>"
				must(os.WriteFile(filepath.Join(dir, f.Entry), bytes.Replace(f.Doc, []byte("</body>"), []byte(img+"</body>"), 1), 0644))
			}
		case 7:
			doc := schemaDoc(s)
			href := add("typed domain and locators", "secret.xsd")
			doc.add(el(nsXSD, "element", at("id", "bait_dim"), at("name", "baitDim"), atQ("", "type", QN{nsXBRLI, "stringItemType"}), at("abstract", "true"),
				atQ("", "substitutionGroup", QN{nsXBRLDT, "dimensionItem"}), atNS(nsXBRLDT, "typedDomainRef", href+"#"+canaryMark)))
			doc.add(el(nsXSD, "annotation", el(nsXSD, "appinfo", el(nsLINK, "linkbaseRef", xl("type", "simple"), xl("arcrole", arcLinkbase), xl("role", refBase+"presentationLinkbaseRef"), xl("href", "bait-lb.xml")))))
			rewrite(doc, s.Loc)
			role := "http://" + canaryMark + "x.example/role"
			if len(f.Roles) > 0 {
				role = pick(r, f.Roles).URI
			}
			lb := el(nsLINK, "linkbase", el(nsLINK, "roleRef", at("roleURI", role), xl("type", "simple"), xl("href", href+"#"+canaryMark)),
				el(nsLINK, "presentationLink", xl("type", "extended"), xl("role", role), loc("a", href+"#"+canaryMark), loc("b", s.Loc+"#bait_dim"),
					el(nsLINK, "presentationArc", xl("type", "arc"), xl("arcrole", arcParent), xl("from", "a"), xl("to", "b"), at("order", "1"))))
			rewrite(lb, "bait-lb.xml")
		}
	}
	if len(tags) == 0 {
		return
	}
	saw := func(what, body string) bool {
		c.Eval()
		// references themselves may be echoed
		text := strings.ReplaceAll(body, "#"+canaryMark, "")
		text = strings.ReplaceAll(text, canaryMark+"x.example", "")
		text = strings.ReplaceAll(text, "urn:"+canaryMark, "")
		if strings.Contains(text, canaryMark) {
			c.Fail("%s carries the content of a file outside the folder (%v): %s", what, tags, clipText(body, 300))
			return true
		}
		if strings.Contains(body, dataURI(canaries()["secret.png"])) {
			c.Fail("%s carries a picture from outside the folder (%v)", what, tags)
			return true
		}
		return false
	}
	resp := w.get(folderURL(f.ID))
	if saw("the catalog", resp.Body) {
		return
	}
	var cat OCatalog
	if resp.ok() && json.Unmarshal([]byte(resp.Body), &cat) == nil {
		for _, e := range keysOf(cat.Networks) {
			for _, role := range keysOf(cat.Networks[e]) {
				if saw("a network", w.get(netURL(f.ID, cat.Networks[e][role])).Body) {
					return
				}
			}
		}
	}
	if f.Inline && saw("the source document", w.get(netURL(f.ID, f.Entry)).Body) {
		return
	}
	// folders named by a path
	for i := 0; i < 2; i++ {
		up := pick(r, []string{"../outside", "..", "../../wd/outside", f.ID + "/../../outside", filepath.Join(w.WD, "outside"), "./../outside", "sub/../../outside", "..\\outside"})
		if saw("the catalog of folder "+up, w.get(folderURL(up)).Body) {
			return
		}
		c.Distinct("folder named", up)
	}
	if e := b.reads(); len(e) > 0 {
		c.Fail("files outside the folder and the store were read: %s (%v)", sorted(e)[0], tags)
		return
	}
	c.Count("references that leave the folder", len(tags))
	c.Sample("%v", tags)
}

// addresses judges the mapping of taxonomy addresses to files.
func (c *Case) addresses(w *World) {
	r := c.Rng
	hosts := []string{"a.example", "b.example", "a.example.b", "xn--a.example", "1.2.3.4", "..", ".", "...", "%2e%2e", "%2F", "..%2F..", "[::1]", "a..b", "-", "concepts", "http", "A.example"}
	segs := []string{"x.xsd", "y.xsd", "a", "b", "..", ".", "%2e%2e", "%2E.", "..%2f", "%2f", "...", "a%20b", "a b", "a+b", "é", "%C3%A9", "\\", "..\\..", "a;b", "_", "a.example", "", "%00", "~", "concepts", "x.xsd%3Fq", "%252e%252e", "%252E.", "a%252fb", "%252f", "a%2520b", "a%25", "%25%32%65", strings.Repeat("d", 300)}
	type mapped struct{ u, host, path, file string }
	var all []mapped
	var made [][]string
	for i := 0; i < 40; i++ {
		parts := []string{pick(r, hosts)}
		for k := r.Intn(6); k > 0; k-- {
			parts = append(parts, pick(r, segs))
		}
		if len(made) > 0 && r.Pct(50) {
			// an address that is easily mistaken for an earlier one
			parts = append([]string{}, pick(r, made)...)
			k := r.Intn(len(parts))
			switch x := parts[k]; r.Intn(6) {
			case 0:
				parts[k] = x + pick(r, []string{"%20", "%09", ".", "~", "-", "0", "%C2%A0", "%25", "\\", ".example", "_"})
			case 1:
				parts[k] = pick(r, []string{"%20", "www.", "0", "_", "~", ".", "a."}) + x
			case 2:
				if x != "" {
					parts[k] = swapCase(x, r.Intn(len(x)))
				}
			case 3:
				if x != "" {
					j := r.Intn(len(x))
					parts[k] = x[:j] + x[j+1:]
				}
			case 4:
				if k+1 < len(parts) {
					glue := pick(r, []string{"", "_", "-", ".", "%5F"})
					parts = append(append(append([]string{}, parts[:k]...), x+glue+parts[k+1]), parts[k+2:]...)
				}
			default:
				parts = append(parts, x)
			}
		}
		made = append(made, parts)
		u := pick(r, []string{"http", "https", "http", "HTTP", "ftp"}) + "://" + pick(r, []string{"", "", "", "u@", "u:p@"}) + parts[0] + pick(r, []string{"", "", "", ":80", ":8080"})
		for _, seg := range parts[1:] {
			u += "/" + seg
		}
		u += pick(r, []string{"", "", "", "?q=/../../../x", "#f", "#/../x"})
		file, err := serializables.UrlToFilename(u)
		c.Eval()
		if err != nil {
			c.Count("addresses refused", 1)
			continue
		}
		c.Distinct("address", u)
		c.Count("addresses mapped", 1)
		p, perr := url.Parse(u)
		if perr != nil {
			continue
		}
		rel, rerr := filepath.Rel(w.GTS, file)
		if rerr != nil || rel == ".." || rel == "." || strings.HasPrefix(rel, "../") {
			c.Fail("the address %s is mapped to %s, outside the store %s", u, file, w.GTS)
			return
		}
		under := false
		for _, part := range strings.Split(filepath.Dir(rel)+"/"+filepath.Base(rel), "/") {
			if strings.EqualFold(part, p.Hostname()) {
				under = true
			}
		}
		if !under {
			c.Fail("the address %s is mapped to %s, not under its host", u, rel)
			return
		}
		if strings.Contains(strings.ToLower(u), "%2f") {
			continue
		}
		all = append(all, mapped{u, strings.ToLower(p.Hostname()), path.Clean("/" + p.Path), filepath.Clean(file)})
	}
	for i, a := range all {
		for _, b := range all[:i] {
			if (a.host != b.host || a.path != b.path) && a.file == b.file {
				c.Fail("the addresses %s and %s are mapped to the same file %s", a.u, b.u, a.file)
				return
			}
		}
	}
	if len(all) > 0 {
		c.Sample("%s -> %s", all[0].u, strings.TrimPrefix(all[0].file, w.GTS))
	}
}
