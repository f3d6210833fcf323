bug('C29-definition-encoding', 'C29',
    'a definition linkbase in a declared encoding other than UTF-8',
    'Definition linkbases in another encoding than UTF-8 are left out.',
    {'pkg/serializables/definitionLinkbaseFile.go': [('''	decoder.CharsetReader = charset.NewReaderLabel
''', ''), ('''
	"golang.org/x/net/html/charset"
''', '')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.def(role, "domain-member", "R", "A", "1", "")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	b, err := os.ReadFile(f.path("co_def.xml"))
	must(err)
	save(f.path("co_def.xml"), `<?xml version="1.0" encoding="windows-1252"?>`+string(b))
	if n := len(f.net(ent, role).at("DGrid", "DRS", "Links").list()); n != 1 {
		fail("%d arcs", n)
	}
''', imports=['os'])

bug('C29-byte-order-mark', 'C29',
    'a label linkbase that starts with a byte order mark',
    'Label linkbases that do not start with markup are rejected, so the labels of one with a byte order mark are missing.',
    {'pkg/serializables/labelLinkbaseFile.go': [('''func DecodeLabelLinkbaseFile(xmlData []byte) (*LabelLinkbaseFile, error) {
''', '''func DecodeLabelLinkbaseFile(xmlData []byte) (*LabelLinkbaseFile, error) {
	if !bytes.HasPrefix(bytes.TrimSpace(xmlData), []byte("<")) {
		return nil, fmt.Errorf("not a linkbase")
	}
'''), ('''	"encoding/xml"
''', '''	"encoding/xml"
	"fmt"
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "en", "Assets")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	b, err := os.ReadFile(f.path("co_lab.xml"))
	must(err)
	save(f.path("co_lab.xml"), "\\xef\\xbb\\xbf"+string(b))
	if s := f.net(ent, role).at("PGrid", "IndentedLabels").String(); !strings.Contains(s, "Assets") {
		fail("no label: %s", s)
	}
''', imports=['os', 'strings'])

bug('C30-decoded-twice', 'C30',
    'a path whose percent signs are themselves percent-encoded',
    'The path of a page is decoded a second time, so it leads out of the directory of the browser.',
    {'internal/web/web.go': [('''	conceptnetworkbrowser := http.FileServer(http.Dir((filepath.Join(wd, "goldlord-midas"))))
''', '''	pages := filepath.Join(wd, "goldlord-midas")
	fileServer := http.FileServer(http.Dir(pages))
	conceptnetworkbrowser := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		name, err := neturl.PathUnescape(r.URL.Path)
		if err != nil || name == r.URL.Path {
			fileServer.ServeHTTP(w, r)
			return
		}
		http.ServeFile(w, r, filepath.Join(pages, name))
	})
''')]},
    '''
	save(dir+"/goldlord-midas/index.html", "start")
	save(dir+"/secret.txt", "kept")
	if code, body := get("/%252e%252e/secret.txt"); code < 400 || strings.Contains(body, "kept") {
		fail("%d %.100s", code, body)
	}
''', imports=['strings'])

bug('C30-start-page-for-all', 'C30',
    'a path under which there is no page',
    'Paths without a page are answered with the start page.',
    {'internal/web/web.go': [('''	r.PathPrefix("/").Handler(http.StripPrefix("/", conceptnetworkbrowser))
''', '''	r.PathPrefix("/").Handler(http.StripPrefix("/", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if _, err := os.Stat(filepath.Join(wd, "goldlord-midas", filepath.FromSlash(r.URL.Path))); os.IsNotExist(err) {
			r.URL.Path = ""
		}
		conceptnetworkbrowser.ServeHTTP(w, r)
	})))
''')]},
    '''
	save(dir+"/goldlord-midas/index.html", "start")
	save(dir+"/goldlord-midas/a.js", "script")
	if code, body := get("/a.js"); code != 200 || body != "script" {
		fail("%d %.100s", code, body)
	}
	if code, body := get("/b.js"); code < 400 {
		fail("%d %.100s", code, body)
	}
''')

bug('C31-goroutines-left', 'C31',
    'many requests for a folder whose source document has no html element',
    'Reading such a document returns before its goroutines have delivered their results, so seven of them stay behind for ever.',
    {'pkg/serializables/document.go': [('''	<-htmlDone
''', '''	<-htmlDone
	if html == nil {
		return nil
	}
''')]},
    '''
	f := filing("f")
	f.Entry = "doc.htm"
	f.Doc = "<body/>"
	f.write()
	for i := 0; i < 5; i++ {
		get("/folders/f")
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		if code, _ := get("/folders/f"); code < 400 {
			fail("answered %d", code)
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before+10; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+10 {
		fail("%d goroutines, before %d", n, before)
	}
''', imports=['runtime', 'time'])

bug('C31-files-left-open', 'C31',
    'many requests for a folder whose instance cannot be decoded',
    'The file of an instance that cannot be decoded is not closed.',
    {'pkg/serializables/instanceFile.go': [('''	data, err := os.ReadFile(filepath)
	if err != nil {
		return nil, err
	}
	decoded, err := DecodeInstanceFile(data)
	if err != nil {
		return nil, err
	}
	return decoded, nil
''', '''	file, err := os.Open(filepath)
	if err != nil {
		return nil, err
	}
	data, err := io.ReadAll(file)
	if err != nil {
		return nil, err
	}
	decoded, err := DecodeInstanceFile(data)
	if err != nil {
		return nil, err
	}
	return decoded, file.Close()
'''), ('''	"encoding/xml"
''', '''	"encoding/xml"
	"io"
''')]},
    '''
	f := filing("f")
	f.write()
	save(f.path(f.Entry), "<xbrl")
	debug.SetGCPercent(-1)
	open := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		must(err)
		return len(l)
	}
	get("/folders/f")
	before := open()
	for i := 0; i < 100; i++ {
		if code, _ := get("/folders/f"); code < 400 {
			fail("answered %d", code)
		}
	}
	if n := open(); n > before+20 {
		fail("%d open files, before %d", n, before)
	}
''', imports=['os', 'runtime/debug'])

bug('C31-creates-names', 'C31',
    'a catalog is requested while there is no register of names',
    'An empty register of names is written into the working directory.',
    {'pkg/serializables/global.go': [('''	b, err := os.ReadFile(filename)
	if err != nil {
		return names, err
	}
	err = json''', '''	b, err := os.ReadFile(filename)
	if os.IsNotExist(err) {
		os.WriteFile(filename, []byte("{}"), 0644)
	}
	if err != nil {
		return names, err
	}
	err = json''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	f.catalog()
	l, err := os.ReadDir(wd)
	must(err)
	if len(l) != 1 {
		fail("%v", l)
	}
''', imports=['os'])

PROGRAM = '''
var root, _ = os.Getwd()

// program builds and starts the program in the scratch directory.
func program(env ...string) *exec.Cmd {
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", "0.0.0.0:8080")
		if err == nil {
			l.Close()
			break
		}
		if i > 600 {
			must(err)
		}
		time.Sleep(100 * time.Millisecond)
	}
	b := exec.Command("go", "build", "-o", dir+"/program", "./cmd/telefacts")
	b.Dir, b.Stderr = root, os.Stderr
	must(b.Run())
	c := exec.Command(dir + "/program")
	c.Dir = dir
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "WD=") && !strings.HasPrefix(v, "GTS=") {
			c.Env = append(c.Env, v)
		}
	}
	c.Env = append(c.Env, env...)
	must(c.Start())
	for i := 0; i < 600; i++ {
		conn, err := net.Dial("tcp", "127.0.0.1:8080")
		if err == nil {
			conn.Close()
			return c
		}
		if c.ProcessState != nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return c
}

func ask(path string) (int, string) {
	r, err := http.Get("http://127.0.0.1:8080" + path)
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, err.Error()
	}
	return r.StatusCode, string(b)
}
'''
PROGRAM_IMPORTS = ['io', 'net', 'net/http', 'os', 'os/exec', 'strings', 'time']

bug('C32-cut-off', 'C32',
    'an interrupt while a request is in progress',
    'The connections are closed at once, so the request in progress gets no answer.',
    {'cmd/telefacts/main.go': [('''	ctx, cancel := context.WithTimeout(ctx, grace)
	defer cancel()
	srv.Shutdown(ctx)
''', '''	ctx, cancel := context.WithTimeout(ctx, grace)
	defer cancel()
	defer srv.Shutdown(ctx)
	srv.Close()
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	must(os.Remove(f.path("_")))
	must(syscall.Mkfifo(f.path("_"), 0644))
	c := program()
	done := make(chan string)
	go func() {
		code, body := ask("/folders/f")
		done <- fmt.Sprint(code, " ", body)
	}()
	w, err := os.OpenFile(f.path("_"), os.O_WRONLY, 0)
	must(err)
	must(c.Process.Signal(os.Interrupt))
	time.Sleep(time.Second)
	must(os.Remove(f.path("_")))
	save(f.path("_"), `{"Entry":"inst.xml"}`)
	w.WriteString(`{"Entry":"inst.xml"}`)
	w.Close()
	if s := <-done; !strings.HasPrefix(s, "200 ") {
		c.Process.Kill()
		fail("%s", s)
	}
	must(c.Wait())
''', imports=PROGRAM_IMPORTS + ['fmt', 'syscall'], helpers=PROGRAM)

bug('C32-store-beside-folders', 'C32',
    'WD is set and GTS is not',
    'The taxonomy store is looked for beside the working directory instead of below the current directory.',
    {'cmd/telefacts/main.go': [('''		gts = dir
''', '''		gts = wd
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	must(os.MkdirAll(dir+"/other", 0755))
	must(os.Rename(wd, dir+"/other/wd"))
	c := program("WD=" + dir + "/other")
	code, body := ask("/folders/f")
	c.Process.Kill()
	c.Wait()
	if code != 200 {
		fail("%d %.100s", code, body)
	}
''', imports=PROGRAM_IMPORTS, helpers=PROGRAM)

bug('C32-insists-on-registry', 'C32',
    'the unit registry does not exist when the program starts',
    'The program ends when the unit registry is missing at its start.',
    {'cmd/telefacts/main.go': [('''	hydratables.HydrateUnitTypeRegistry()
''', '''	if _, err := hydratables.HydrateUnitTypeRegistry(); err != nil {
		log.Fatal(err)
	}
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	must(os.Rename(gts, gts+"-later"))
	c := program()
	must(os.Rename(gts+"-later", gts))
	code, body := ask("/folders/f")
	c.Process.Kill()
	c.Wait()
	if code != 200 {
		fail("%d %.100s", code, body)
	}
''', imports=PROGRAM_IMPORTS, helpers=PROGRAM)

bug('C02-identifier-trimmed', 'C02',
    'two folders whose names differ only in white space at the end',
    'White space around the name of a folder is dropped, so the catalog of another folder is served.',
    {'internal/web/web.go': [('''			http.Error(w, "Error: incorrect verb, "+r.Method, http.StatusInternalServerError)
			return
		}
		vars := mux.Vars(r)
		id := vars["id"]
		if len(id) <= 0 {
			http.Error(w, "Error: invalid id '"+id+"'", http.StatusBadRequest)
			return
		}
		data, err := cache.MarshalCatalog(id)
''', '''			http.Error(w, "Error: incorrect verb, "+r.Method, http.StatusInternalServerError)
			return
		}
		vars := mux.Vars(r)
		id := strings.TrimSpace(vars["id"])
		if len(id) <= 0 {
			http.Error(w, "Error: invalid id '"+id+"'", http.StatusBadRequest)
			return
		}
		data, err := cache.MarshalCatalog(id)
'''), ('''	"path/filepath"

''', '''	"path/filepath"
	"strings"

''')]},
    '''
	for i, id := range []string{"f", "f "} {
		f := filing(id)
		f.num("A")
		f.ctx("c1", fmt.Sprint("000", i), "2020-12-31", "", "")
		f.usd("A", "c1", "1")
		f.write()
	}
	_, a := get("/folders/f")
	_, b := get("/folders/f%20")
	if a == b {
		fail("the same catalog for both: %s", a)
	}
''', imports=['fmt'])

bug('C04-lock-held', 'C04',
    'a request for a network of a folder that is not loaded yet, while another request stores its answer in the cache',
    'The lock of the cache is held while the folder is loaded, which takes it again; with a writer waiting in between, all requests wait for ever.',
    {'pkg/cache/cache.go': [('''	lock.RUnlock()
	h, err := hydratable(id)
	if err != nil {
		return nil, err
	}
	ext :=''', '''	defer lock.RUnlock()
	h, err := hydratable(id)
	if err != nil {
		return nil, err
	}
	ext :=''')]},
    '''
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for k := 0; k < 64; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i := 0; i < 30; i++ {
					f := filing(fmt.Sprintf("f%d-%d", k, i))
					f.num("A")
					f.abstract("R")
					f.pre(role, "R", "A", "1")
					f.ctx("c1", ent, "2020-12-31", "", "")
					f.usd("A", "c1", "1")
					f.write()
					f.net(ent, role)
					get("/folders/" + f.ID + "/nothing")
				}
			}(k)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(200 * time.Second):
		fail("requests wait for ever")
	}
''', imports=['fmt', 'sync', 'time'])

bug('C05-facts-gathered-concurrently', 'C05',
    'two values for one concept and context, neither with an identifier',
    'Facts are gathered by goroutines and those without an identifier stay in the order of arrival, so the value shown changes from run to run.',
    {'pkg/hydratables/instance.go': [('''	ret := make([]Fact, 0, len(instanceFile.Facts))
	for _, fact := range instanceFile.Facts {
''', '''	ret := make([]Fact, 0, len(instanceFile.Facts))
	var lock sync.Mutex
	var wg sync.WaitGroup
	hydrateFact := func(i int) {
		defer wg.Done()
		fact := instanceFile.Facts[i]
'''), ('''		if fact.XMLName.Local == "" || fact.XMLName.Space == "" {
			continue
		}
		factRef, factConcept, err := h.NameQuery(fact.XMLName.Space, fact.XMLName.Local)
		if err != nil || factRef == "" || factConcept == nil {
			continue
		}
		contextRefAttr := attr.FindAttr(fact.XMLAttrs, "contextRef")
		if contextRefAttr == nil || contextRefAttr.Value == "" {
			continue
		}
''', '''		if fact.XMLName.Local == "" || fact.XMLName.Space == "" {
			return
		}
		factRef, factConcept, err := h.NameQuery(fact.XMLName.Space, fact.XMLName.Local)
		if err != nil || factRef == "" || factConcept == nil {
			return
		}
		contextRefAttr := attr.FindAttr(fact.XMLAttrs, "contextRef")
		if contextRefAttr == nil || contextRefAttr.Value == "" {
			return
		}
'''), ('''		ret = append(ret, newFact)
	}
''', '''		lock.Lock()
		defer lock.Unlock()
		ret = append(ret, newFact)
	}
	wg.Add(len(instanceFile.Facts))
	for i := range instanceFile.Facts {
		go hydrateFact(i)
	}
	wg.Wait()
'''), ('''	"strings"

''', '''	"strings"
	"sync"

''')]},
    '''
	f := filing("f")
	f.abstract("R")
	for i := 0; i < 40; i++ {
		n := fmt.Sprintf("A%d", i)
		f.num(n)
		f.pre(role, "R", n, "1")
	}
	f.ctx("c1", ent, "2020-12-31", "", "")
	for i := 0; i < 40; i++ {
		n := fmt.Sprintf("A%d", i)
		f.fact(n, "c1", `unitRef="usd" decimals="0"`, "1")
		f.fact(n, "c1", `unitRef="usd" decimals="0"`, "2")
	}
	first := ""
	for i := 0; i < 60; i++ {
		f.ID = fmt.Sprintf("f%d", i)
		f.write()
		s := f.net(ent, role).String()
		if first == "" {
			first = s
		} else if s != first {
			fail("the answer changes")
		}
	}
''', imports=['fmt'])

bug('C06-entity-beginning', 'C06',
    'two entities whose identifiers begin alike',
    'A network also shows the columns of entities whose identifier begins with that of the selected one.',
    {'pkg/renderables/contexts.go': [('''					if contextualSchemedEntity == schemedEntity {
''', '''					if strings.HasPrefix(contextualSchemedEntity, schemedEntity) {
'''), ('''	"sort"

''', '''	"sort"
	"strings"

''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.ctx("c2", ent+"5", "2019-12-31", "", "")
	f.usd("A", "c1", "1")
	f.usd("A", "c2", "2")
	f.write()
	if n := len(f.net(ent, role).at("PGrid", "PeriodHeaders").list()); n != 1 {
		fail("%d columns", n)
	}
''')

bug('C07-shared-typed-domain', 'C07',
    'a context with two typed dimensions of the same typed domain',
    'The value of one dimension is shown under both.',
    {'pkg/renderables/contextualQuadrant.go': [('''				if ctxMember.Dimension.Href == voidCell.Dimension.Href {
''', '''				if ctxMember.Dimension.Href == voidCell.Dimension.Href || ctxMember.TypedDomain != nil {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.el("Dom", "xsd:string", "")
	for _, d := range []string{"D1", "D2"} {
		f.el(d, "xbrli:stringItemType", `substitutionGroup="xbrldt:dimensionItem" xbrli:periodType="duration" abstract="true" xbrldt:typedDomainRef="#co_Dom"`)
	}
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", typed("D1", "Dom", "one")+typed("D2", "Dom", "two"), "")
	f.usd("A", "c1", "1")
	f.write()
	n := f.net(ent, role).at("PGrid")
	seen := n.at("ContextualMemberGrid").String()
	if strings.Count(seen, "one") != 1 || strings.Count(seen, "two") != 1 {
		fail("%s", seen)
	}
''', imports=['strings'])

bug('C08-spanish-points', 'C08',
    'a number of four or more digits shown in Spanish',
    'Digits are grouped by points before a decimal point, so the number cannot be read back.',
    {'pkg/renderables/spanish.go': [('''concept, ' ')
''', '''concept, '.')
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "es", "Activos")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="usd" decimals="2"`, "1234567.25")
	f.write()
	cell := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "es - español")
	if s := cell.at("Core").String() + cell.at("Tail").String(); strings.Count(s, ".") != 1 {
		fail("%s", s)
	}
''', imports=['strings'])

bug('C09-spanish-named-ratio', 'C09',
    'a ratio whose numerator has no symbol, shown in Spanish',
    'The denominator of such a unit is left out.',
    {'pkg/renderables/spanish.go': [('''			sigFig.Tail += numerator.UnitName
		}
		if denominator != nil {
''', '''			sigFig.Tail += numerator.UnitName
		} else if denominator != nil {
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "es", "Activos")
	f.Units += unit("rate", "iso4217:JPY/xbrli:shares")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `unitRef="rate" decimals="2"`, "12")
	f.write()
	cell := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0, "es - español")
	if s := cell.at("Tail").String(); !strings.Contains(s, "Yen/Share") {
		fail("%s", s)
	}
''', imports=['strings'])

bug('C10-locator-case', 'C10',
    'locators whose labels differ only in case',
    'A row names the concept of another locator.',
    {'pkg/renderables/concepts.go': [('''					for _, loc := range presentationLink.Locs {
						if loc.Label == locator {
''', '''					for _, loc := range presentationLink.Locs {
						if strings.EqualFold(loc.Label, locator) {
''')]},
    '''
	f := filing("f")
	f.num("Rate", "RATE")
	f.abstract("R")
	f.pre(role, "R", "Rate", "1")
	f.pre(role, "R", "RATE", "2")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("Rate", "c1", "1")
	f.write()
	rows := f.net(ent, role).at("PGrid", "IndentedLabels")
	if s := rows.at(2, "Href").String(); s != "co.xsd#co_RATE" {
		fail("%s", s)
	}
''')

bug('C11-single-precision-weight', 'C11',
    'a weight that single precision does not hold, such as 0.1',
    'Weights are read in single precision, so 0.1 is shown as 0.10000000149011612.',
    {'pkg/hydratables/calculationLinkbase.go': [('''strconv.ParseFloat(weightAttr.Value, 64)
''', '''strconv.ParseFloat(weightAttr.Value, 32)
''')]},
    '''
	f := filing("f")
	f.num("A", "B")
	f.cal(role, "A", "B", "1", "0.1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("CGrid", "SummationItems", 0, "ContributingConcepts", 0, "Scale").String(); s != "0.1" {
		fail("%s", s)
	}
''')

bug('C12-context-element-assumed', 'C12',
    'a hypercube arc without a context element, or of the scenario, on an open hypercube',
    'Hypercubes that are not closed are shown for the segment whatever is declared.',
    {'pkg/hydratables/definitionLinkbase.go': [('''			if contextElementAttr != nil {
				newArc.ContextElement = contextElementAttr.Value
			}
''', '''			if contextElementAttr != nil && newArc.Closed {
				newArc.ContextElement = contextElementAttr.Value
			} else if contextElementAttr != nil {
				newArc.ContextElement = "segment"
			}
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.sub("xbrldt:hypercubeItem", "H")
	f.def(role, "domain-member", "R", "A", "1", "")
	f.def(role, "all", "R", "H", "1", `xbrldt:contextElement="scenario"`)
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("DGrid", "DRS", "Links").String(); !strings.Contains(s, `"ContextElement":"scenario"`) {
		fail("%s", s)
	}
''', imports=['strings'])

bug('C13-british-label', 'C13',
    'a concept with an American and a British label',
    'Labels of every region of English are taken, the last one winning.',
    {'pkg/renderables/label.go': [('''	case "es":
		labelPack[labelRole][Español] = charData
		break
''', '''	case "es":
		labelPack[labelRole][Español] = charData
		break
	case "en-GB", "en-CA", "en-AU":
		labelPack[labelRole][English] = charData
		break
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "en-US", "Labor")
	f.label("A", "label", "en-GB", "Labour")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("PGrid", "IndentedLabels", 1, "Label", "Default", "en - english").String(); s != "Labor" {
		fail("%s", s)
	}
''')

bug('C14-nil-footnotes', 'C14',
    'a footnote on a nil fact',
    'Cells of nil facts carry no footnote marks.',
    {'pkg/renderables/factualQuadrant.go': [('''			footnotes = factFinder.GetFootnotes(fact)
''', '''			if fact != nil && !fact.IsNil {
				footnotes = factFinder.GetFootnotes(fact)
			}
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `id="x" unitRef="usd" xsi:nil="true"`, "")
	f.foot("x", "n1", "not applicable")
	f.write()
	if s := f.net(ent, role).at("PGrid", "FootnoteGrid", 1, 0).String(); s != "[1]" {
		fail("%s", s)
	}
''')

bug('C15-script-skipped', 'C15',
    'a text block that contains a script or style element',
    'The text of such elements is left out.',
    {'pkg/renderables/textBlock.go': [('''			switch token.Data {
			case "table":
				disableBr++
''', '''			switch token.Data {
			case "script", "style":
				if tt == html.StartTagToken {
					tokenizer.Next()
				}
			case "table":
				disableBr++
''')]},
    '''
	f := filing("f")
	f.abstract("R")
	f.el("T", "nonnum:textBlockItemType", `substitutionGroup="xbrli:item" xbrli:periodType="duration"`)
	f.pre(role, "R", "T", "1")
	f.ctx("c1", ent, "2020-01-01/2020-12-31", "", "")
	f.fact("T", "c1", "", "before &lt;script&gt;within&lt;/script&gt; after")
	f.write()
	if s := f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0).String(); !strings.Contains(s, "within") || !strings.Contains(s, "after") {
		fail("%s", s)
	}
''', imports=['strings'])

bug('C16-identifier-in-two-schemes', 'C16',
    'two entities with the same identifier under different schemes',
    'Only the first of them is listed.',
    {'pkg/renderables/contexts.go': [('''		occured := map[Entity]bool{}
		u := []Entity{}
		for e := range arr {
			if !occured[arr[e]] {
				occured[arr[e]] = true
''', '''		occured := map[string]bool{}
		u := []Entity{}
		for e := range arr {
			if !occured[arr[e].CharData] {
				occured[arr[e].CharData] = true
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	c1 := f.Ctx
	f.Ctx += strings.NewReplacer("c1", "c2", "http://www.sec.gov/CIK", "http://lei.example").Replace(c1)
	f.usd("A", "c1", "1")
	f.usd("A", "c2", "2")
	f.write()
	if n := len(f.catalog().at("Subjects").list()); n != 2 {
		fail("%d entities", n)
	}
''', imports=['strings'])

bug('C18-entry-completed', 'C18',
    'two attempts to create a folder under one key, the second between the two steps of the first',
    'An attempt that finds the folder without a description writes its own, so the entry is not that of the successful attempt.',
    {'pkg/serializables/underscore.go': [('''		if key != "" {
			return id.String(), os.ErrExist
		}
''', '''		if key != "" {
			if b, errr := json.Marshal(underscore); errr == nil {
				if entry, _ := GetEntryFileName(id.String()); entry == "" {
					os.WriteFile(filepath.Join(pathStr, "_"), b, 0755)
				}
			}
			return id.String(), os.ErrExist
		}
''')]},
    '''
	for i := 0; i < 3000; i++ {
		key := fmt.Sprint("key", i)
		var wg sync.WaitGroup
		var lock sync.Mutex
		won := ""
		id := ""
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				entry := fmt.Sprintf("e%d.xml", k)
				got, err := serializables.NewFolder(key, serializables.Underscore{Entry: entry})
				if err == nil {
					lock.Lock()
					won, id = entry, got
					lock.Unlock()
				}
			}(k)
		}
		wg.Wait()
		entry, err := serializables.GetEntryFileName(id)
		if err != nil || entry != won {
			fail("created with %s, reads back %s (%v)", won, entry, err)
		}
	}
''', imports=['fmt', 'sync', 'ecksbee.com/telefacts/pkg/serializables'])

bug('C19-store-decoded-twice', 'C19',
    'a taxonomy address with doubly encoded parent steps',
    'Parts of a taxonomy address are decoded a second time, so the address leads out of the store.',
    {'pkg/serializables/global.go': [('''		dest = filepath.Join(dest, split)
''', '''		if unescaped, err := url.PathUnescape(split); err == nil {
			split = unescaped
		}
		dest = filepath.Join(dest, split)
''')]},
    '''
	got, err := serializables.UrlToFilename("http://a.example/%252e%252e/%252e%252e/%252e%252e/%252e%252e/secret.xsd")
	if err == nil && !strings.HasPrefix(got, gts+"/concepts/http/a.example/") {
		fail("%s", got)
	}
''', imports=['strings', 'ecksbee.com/telefacts/pkg/serializables'])

bug('C20-foreign-balance', 'C20',
    'a concept with a balance attribute of another namespace',
    'A balance attribute of any namespace is taken as the balance of the concept.',
    {'pkg/hydratables/schema.go': [('''		if balanceAttr != nil && balanceAttr.Name.Space == attr.XBRLI {
''', '''		if balanceAttr != nil {
''')]},
    '''
	f := filing("f")
	f.el("A", "xbrli:monetaryItemType", `substitutionGroup="xbrli:item" xbrli:periodType="instant" ot:balance="credit"`)
	f.num("B")
	f.cal(role, "B", "A", "1", "1")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("CGrid", "SummationItems", 0, "ContributingConcepts", 0, "BalanceType").String(); s != "" {
		fail("%s", s)
	}
''')

bug('C21-equal-facts-merged', 'C21',
    'the same value reported twice for a concept and context, under different identifiers',
    'The second of two facts with the same concept, context, unit and content is dropped, and with it its identifier.',
    {'pkg/hydratables/instance.go': [('''		ret = append(ret, newFact)
	}
''', '''		same := newFact
		same.ID = ""
		if reported[same] {
			continue
		}
		reported[same] = true
		ret = append(ret, newFact)
	}
'''), ('''	ret := make([]Fact, 0, len(instanceFile.Facts))
''', '''	ret := make([]Fact, 0, len(instanceFile.Facts))
	reported := make(map[Fact]bool)
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.ctx("c1", ent, "2020-12-31", "", "")
	f.fact("A", "c1", `id="x" unitRef="usd" decimals="0"`, "7")
	f.fact("A", "c1", `id="y" unitRef="usd" decimals="0"`, "7")
	f.write()
	folder, err := serializables.Discover("f")
	must(err)
	h, err := hydratables.Hydrate(folder)
	must(err)
	if n := len(h.Instances["inst.xml"].Facts); n != 2 {
		fail("%d facts", n)
	}
''', imports=['ecksbee.com/telefacts/pkg/hydratables', 'ecksbee.com/telefacts/pkg/serializables'])

bug('C22-by-extension', 'C22',
    'a picture whose file name does not end like its kind',
    'The kind of a picture is told by its file name.',
    {'pkg/serializables/folder.go': [('''		mimeType := http.DetectContentType(bytes)
''', '''		mimeType := mime.TypeByExtension(path.Ext(file.Name()))
		if mimeType == "" {
			mimeType = http.DetectContentType(bytes)
		}
'''), ('''	"fmt"
	"net/http"
''', '''	"fmt"
	"mime"
	"net/http"
''')]},
    '''
	f := filing("f")
	f.Entry = "doc.htm"
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml"><head></head><body><img src="logo.gif"/></body></html>`
	f.write()
	png := "\\x89PNG\\r\\n\\x1a\\n" + strings.Repeat("x", 50)
	save(f.path("logo.gif"), png)
	code, body := get("/folders/f/doc.htm")
	if code != 200 || !strings.Contains(body, "data:image/png;base64,") {
		fail("%d %.300s", code, body)
	}
''', imports=['strings'])

bug('C23-typed-members-swapped', 'C23',
    'a fact in a context with a typed member',
    'The typed members of the segment are taken for those of the scenario and the other way round.',
    {'pkg/renderables/expressable.go': [('''getMemberGridAndVoidQuadrant(expressedContexts, segment, scenario)
''', '''getMemberGridAndVoidQuadrant(expressedContexts, scenario, segment)
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.el("Dom", "xsd:string", "")
	f.el("D1", "xbrli:stringItemType", `substitutionGroup="xbrldt:dimensionItem" xbrli:periodType="duration" abstract="true" xbrldt:typedDomainRef="#co_Dom"`)
	f.ctx("c1", ent, "2020-12-31", typed("D1", "Dom", "one"), "")
	f.usd("A", "c1", "1")
	f.Entry = "doc.htm"
	f.Doc = `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:co="http://co.example/2021"><body><ix:nonFraction name="co:A" contextRef="c1">1</ix:nonFraction></body></html>`
	f.write()
	code, body := get("/folders/f/facts?name=co:A&contextref=c1")
	if code != 200 || !strings.Contains(body, "one") {
		fail("%d %s", code, body)
	}
''', imports=['strings'])

bug('C24-unknown-folder-fact', 'C24',
    'a fact is requested of a folder that does not exist',
    'The request is answered with success and no content.',
    {'pkg/cache/cache.go': [('''func MarshalExpressable(id string, name string, contextref string) ([]byte, error) {
	h, err := hydratable(id)
	if err != nil {
		return nil, err
	}
''', '''func MarshalExpressable(id string, name string, contextref string) ([]byte, error) {
	h, err := hydratable(id)
	if h == nil {
		return nil, nil
	}
''')]},
    '''
	if code, body := get("/folders/none/facts?name=co:A&contextref=c1"); code < 400 {
		fail("%d %s", code, body)
	}
''')

bug('C25-spanish-inclusive', 'C25',
    'a duration ending twenty-nine days after its start, shown in Spanish',
    'The last day is counted in, so the raw period is replaced by a month.',
    {'pkg/renderables/spanish.go': [('''		months := monthCount(startTime, endTime)
''', '''		months := monthCount(startTime, endTime.AddDate(0, 0, 1))
''')]},
    '''
	f := filing("f")
	f.num("A")
	f.abstract("R")
	f.pre(role, "R", "A", "1")
	f.label("A", "label", "es", "Activos")
	f.ctx("c1", ent, "2020-04-01/2020-04-30", "", "")
	f.usd("A", "c1", "1")
	f.write()
	if s := f.net(ent, role).at("PGrid", "PeriodHeaders", 0, "es - español").String(); s != "2020-04-01/2020-04-30" {
		fail("%s", s)
	}
''')

bug('C26-roles-searched', 'C26',
    'a presentation linkbase that refers to its roles in another than alphabetical order',
    'A binary search is made in the role references, so links of some roles are not found.',
    {'pkg/renderables/presentationGrid.go': [('''		for _, roleRef := range presentation.RoleRefs {
			if linkroleURI == roleRef.RoleURI {
				presentationLinks = presentation.PresentationLinks
				break
			}
		}
''', '''		i := sort.Search(len(presentation.RoleRefs), func(i int) bool {
			return presentation.RoleRefs[i].RoleURI >= linkroleURI
		})
		if i < len(presentation.RoleRefs) && presentation.RoleRefs[i].RoleURI == linkroleURI {
			presentationLinks = presentation.PresentationLinks
		}
''')]},
    '''
	rows := func(id string, roles ...string) int {
		f := filing(id)
		f.order = nil
		f.Roles = ""
		for _, r := range roles {
			f.role(r, "Role "+r)
		}
		f.num("A")
		f.abstract("R")
		for _, r := range roles {
			f.pre(r, "R", "A", "1")
		}
		f.ctx("c1", ent, "2020-12-31", "", "")
		f.usd("A", "c1", "1")
		f.write()
		n := 0
		for _, r := range roles {
			n += len(f.net(ent, r).at("PGrid", "IndentedLabels").list())
		}
		return n
	}
	a, b := rows("f", role+"1", role+"2", role+"3"), rows("g", role+"3", role+"1", role+"2")
	if a != b {
		fail("%d rows, %d with the roles in another order", a, b)
	}
''')

bug('C27-conventional-type-prefix', 'C27',
    'the prefix num bound to another namespace than the one it is known for',
    'Types with the prefix num are taken as numeric types of the registry whatever the prefix is bound to.',
    {'pkg/hydratables/schema.go': [('''	tlAttrs := file.XMLAttrs
''', '''	tlAttrs := append([]xml.Attr{{Name: xml.Name{Space: "xmlns", Local: "num"}, Value: attr.NUM}}, file.XMLAttrs...)
''')]},
    '''
	shown := func(id, prefix string) string {
		f := filing(id)
		f.abstract("R")
		f.el("A", prefix+":percentItemType", `substitutionGroup="xbrli:item" xbrli:periodType="instant"`)
		f.pre(role, "R", "A", "1")
		f.Units += unit("pure", "xbrli:pure")
		f.ctx("c1", ent, "2020-12-31", "", "")
		f.fact("A", "c1", `unitRef="pure" decimals="2"`, "0.25")
		f.write()
		b, err := os.ReadFile(f.path("co.xsd"))
		must(err)
		s := strings.Replace(string(b), ` xmlns:num="http://www.xbrl.org/dtr/type/numeric"`, ` xmlns:`+prefix+`="http://types.example/2021"`, 1)
		save(f.path("co.xsd"), s)
		return f.net(ent, role).at("PGrid", "FactualQuadrant", 1, 0).String()
	}
	a, b := shown("f", "typ"), shown("g", "num")
	if a != b {
		fail("%s, with another prefix %s", a, b)
	}
''', imports=['os', 'strings'])

bug('C28-second-clash', 'C28',
    'a conventional prefix bound to another namespace, and the first substitute for it declared too',
    'The substitute for a clashing prefix is not checked again, so names of two namespaces get the same canonical name.',
    {'pkg/attr/name.go': [('''		acc++
		hit = false
''', '''		acc++
		return curr
''')]},
    '''
	decls := []xmlquery.Attr{}
	for _, d := range [][2]string{{"link-a", "http://one.example"}, {"link", "http://two.example"}} {
		decls = append(decls, xmlquery.Attr{Name: xml.Name{Space: "xmlns", Local: d[0]}, Value: d[1], NamespaceURI: "xmlns"})
	}
	np, err := attr.NewNameProvider(decls)
	must(err)
	a, b := np.ProvideConceptName("link-a:x"), np.ProvideConceptName("link:x")
	if a == b {
		fail("both %s", a)
	}
''', imports=['encoding/xml', 'ecksbee.com/telefacts/pkg/attr', 'github.com/antchfx/xmlquery'])
