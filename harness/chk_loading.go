//go:build check_C17

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"strings"

	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	register(&Check{ID: "C17", Level: "exploration", Quick: 12000, Thorough: 150000, Run: runC17,
		Rule:        "loading one folder whose reference graph is known; identified by the shape of the graph (edges by kind) and the entry kind",
		Assumptions: []string{"references are by plain file names and by names of files in a sub-directory that refer to nothing further; schemas have a target namespace and imports name it"}})
}

// gnode is a file of a reference graph.
type gnode struct {
	name, mark, ns string
	kind           string   // schema, or nothing
	kinds          []string // of the links of a linkbase
	imports        []string
	includes       []string
	lbs            [][2]string // kind, href
	broken         bool
}

var linkKinds = []string{"presentation", "definition", "calculation", "label"}

func (n *gnode) doc(r *Rng, ns map[string]string) []byte {
	if n.broken {
		return []byte(pick(r, []string{"", "<", "<schema", "<a><b></a>", "not xml at all <<<"}))
	}
	if n.kind != "schema" {
		var links Group
		for _, kind := range n.kinds {
			links = append(links, el(nsLINK, kind+"Link", xl("type", "extended"), xl("role", "http://role.example/"+n.mark), xl("title", n.mark)))
		}
		root := el(nsLINK, "linkbase", el(nsLINK, "roleRef", at("roleURI", "http://role.example/"+n.mark), xl("type", "simple"), xl("href", "x.xsd#"+n.mark)), links)
		return writeXML(root, anyLayout(r))
	}
	root := el(nsXSD, "schema", at("targetNamespace", n.ns))
	var infos []*Node
	for i := r.In(1, 3); i > 0; i-- {
		info := el(nsXSD, "appinfo")
		info.Free = true
		infos = append(infos, info)
	}
	for _, l := range n.lbs {
		pick(r, infos).add(el(nsLINK, "linkbaseRef", xl("type", "simple"), xl("arcrole", arcLinkbase), xl("role", refBase+l[0]+"LinkbaseRef"), xl("href", l[1])))
	}
	var top Group
	for i, info := range infos {
		if i > 0 && r.Pct(50) {
			top[len(top)-1].(*Node).add(info)
			continue
		}
		top = append(top, el(nsXSD, "annotation", info))
	}
	for _, h := range n.imports {
		space := ns[h]
		if space == "" {
			space = "urn:elsewhere:" + h
		}
		top = append(top, el(nsXSD, "import", at("namespace", space), at("schemaLocation", h)))
	}
	for _, h := range n.includes {
		top = append(top, el(nsXSD, "include", at("schemaLocation", h)))
	}
	top = append(top, el(nsXSD, "element", at("id", n.mark), at("name", "e"+n.mark), atQ("", "type", QN{nsXBRLI, "stringItemType"})))
	root.add(top)
	return writeXML(root, anyLayout(r), nsXBRLI)
}

func runC17(w *World, c *Case) {
	r := c.Rng
	var schemas, links []*gnode
	nodes := map[string]*gnode{}
	ns := map[string]string{}
	n := pick(r, []int{1, 2, 3, 4, 6, 9, 14, 25})
	spaces := r.In(1, n)
	var leaves []string // files in sub-directories
	for i := 0; i < n; i++ {
		x := &gnode{name: fmt.Sprintf("s%d.xsd", i), kind: "schema", mark: fmt.Sprintf("mark%dx%d", c.Index, i), ns: fmt.Sprintf("http://ns%d.example", r.Intn(spaces))}
		if r.Pct(8) {
			x.broken = true
		}
		if i > 0 && r.Pct(10) {
			x.name = fmt.Sprintf("sub/s%d.xsd", i)
			leaves = append(leaves, x.name)
		}
		schemas = append(schemas, x)
	}
	for i := r.Intn(2*n + 2); i > 0; i-- {
		x := &gnode{name: fmt.Sprintf("l%d.xml", i), kinds: sample(r, linkKinds, pick(r, []int{1, 1, 1, 2, 4})), mark: fmt.Sprintf("mark%dy%d", c.Index, i)}
		if r.Pct(8) {
			x.broken = true
		}
		if r.Pct(10) {
			x.name = "sub/" + x.name
		}
		links = append(links, x)
	}
	for _, x := range append(append([]*gnode{}, schemas...), links...) {
		nodes[x.name] = x
		ns[x.name] = x.ns
	}
	any := func() string {
		if r.Pct(8) {
			return pick(r, []string{"missing.xsd", "sub/missing.xsd", "http://missing.example/a.xsd", "http://www.xbrl.org/utr/utr.xml", "https://xbrl.example/base/2021/base-2021.xsd"})
		}
		return pick(r, schemas).name
	}
	degree := r.Intn(4)
	shape := r.Intn(5)
	for i, x := range schemas {
		if strings.HasPrefix(x.name, "sub/") {
			continue
		}
		edge := func(h string) {
			if r.Pct(50) {
				x.imports = append(x.imports, h)
			} else {
				x.includes = append(x.includes, h)
			}
		}
		switch shape {
		case 0: // a ring
			edge(schemas[(i+1)%n].name)
		case 1: // everything refers to everything
			if n <= 9 {
				for _, y := range schemas {
					edge(y.name)
				}
			}
		case 2: // a chain
			if i+1 < n {
				edge(schemas[i+1].name)
			}
		case 3: // itself
			edge(x.name)
		}
		for k := r.Intn(degree + 1); k > 0; k-- {
			edge(any())
		}
		for k := r.Intn(3); k > 0 && len(links) > 0; k-- {
			l := pick(r, links)
			for _, kind := range sample(r, l.kinds, r.In(1, len(l.kinds))) {
				x.lbs = append(x.lbs, [2]string{kind, l.name})
			}
		}
		if r.Pct(5) {
			x.lbs = append(x.lbs, [2]string{pick(r, linkKinds), pick(r, []string{"missing.xml", "http://missing.example/l.xml"})})
		}
		if r.Pct(5) {
			x.lbs = append(x.lbs, [2]string{"reference", "s0.xsd"})
		}
	}
	var refs []string
	for k := pick(r, []int{0, 1, 1, 1, 2, 3}); k > 0; k-- {
		refs = append(refs, any())
	}
	// what can be reached
	want := map[string]bool{}
	seen := map[string]bool{}
	queue := append([]string{}, refs...)
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		x := nodes[h]
		if seen[h] || x == nil || x.kind != "schema" || x.broken {
			continue
		}
		seen[h] = true
		want["schema "+h+" "+x.mark] = true
		queue = append(append(queue, x.imports...), x.includes...)
		for _, l := range x.lbs {
			if y := nodes[l[1]]; y != nil && y.kind != "schema" && !y.broken {
				want[l[0]+" "+l[1]+" "+y.mark] = true
			}
		}
	}
	id := w.newID()
	dir := w.folder(id)
	c.FilingDir = dir
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	defer os.RemoveAll(dir)
	for _, x := range append(append([]*gnode{}, schemas...), links...) {
		must(os.WriteFile(filepath.Join(dir, x.name), x.doc(r, ns), 0644))
	}
	root := el(nsXBRLI, "xbrl")
	var group Group
	for _, h := range refs {
		group = append(group, el(nsLINK, "schemaRef", xl("type", "simple"), xl("href", h)))
	}
	root.add(group)
	instance := writeXML(root, anyLayout(r))
	entry := pick(r, []string{"i.xml", "i.xbrl", "i.htm", "i.xhtml"})
	inline := strings.HasSuffix(entry, "htm") || strings.HasSuffix(entry, "html")
	if inline {
		must(os.WriteFile(filepath.Join(dir, entry), []byte("<html xmlns=\""+nsXHTML+"\"><body>words</body></html>"), 0644))
		must(os.WriteFile(filepath.Join(dir, entry+".xml"), instance, 0644))
	} else {
		must(os.WriteFile(filepath.Join(dir, entry), instance, 0644))
	}
	b, _ := json.Marshal(map[string]string{"Entry": entry})
	must(os.WriteFile(filepath.Join(dir, "_"), b, 0644))

	for round := 0; round < 3; round++ {
		runtime.GOMAXPROCS(pick(r, []int{1, 2, 4, 8}))
		f, err := serializables.Discover(id)
		if err != nil {
			c.Fail("the folder is not loaded: %v", err)
			return
		}
		got := map[string]bool{}
		note := func(kind, href string, v interface{}) {
			b, err := json.Marshal(v)
			must(err)
			mark := "content of no file"
			for _, x := range nodes {
				if x.mark != "" && strings.Contains(string(b), `"`+x.mark+`"`) {
					mark = x.mark
				}
			}
			got[kind+" "+path.Clean(href)+" "+mark] = true
		}
		for h, v := range f.Schemas {
			note("schema", h, v)
		}
		for h, v := range f.PresentationLinkbases {
			note("presentation", h, v)
		}
		for h, v := range f.DefinitionLinkbases {
			note("definition", h, v)
		}
		for h, v := range f.CalculationLinkbases {
			note("calculation", h, v)
		}
		for h, v := range f.LabelLinkbases {
			note("label", h, v)
		}
		c.Eval()
		if d := diffSets(keysOf(want), keysOf(got)); d != "" {
			c.Fail("files loaded (kind, name, content): %s", d)
			return
		}
	}
	var edges []string
	for _, x := range schemas {
		edges = append(edges, fmt.Sprint(x.name, x.broken, x.imports, x.includes, x.lbs))
	}
	c.Distinct(entry, refs, edges)
	c.Count("files reachable", len(want))
	c.Count("files not reachable", len(nodes)-len(seen))
	c.Sample("%d schemas, %d linkbases, shape %d, references %v: %d files loaded", n, len(links), shape, refs, len(want))
}
