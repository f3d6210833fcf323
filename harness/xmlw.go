package main

import (
	"fmt"
	"strings"
)

// namespaces the filings use
const (
	nsUTRFile = "http://www.xbrl.org/utr/utr.xml"
	nsIX      = "http://www.xbrl.org/2013/inlineXBRL"
	nsIXT     = "http://www.xbrl.org/inlineXBRL/transformation/2015-02-26"
	nsXSD     = "http://www.w3.org/2001/XMLSchema"
	nsXLINK   = "http://www.w3.org/1999/xlink"
	nsXBRLI   = "http://www.xbrl.org/2003/instance"
	nsXBRLDT  = "http://xbrl.org/2005/xbrldt"
	nsXBRLDI  = "http://xbrl.org/2006/xbrldi"
	nsLINK    = "http://www.xbrl.org/2003/linkbase"
	nsXSI     = "http://www.w3.org/2001/XMLSchema-instance"
	nsISO     = "http://www.xbrl.org/2003/iso4217"
	nsNUM     = "http://www.xbrl.org/dtr/type/numeric"
	nsNONNUM  = "http://www.xbrl.org/dtr/type/non-numeric"
	nsXHTML   = "http://www.w3.org/1999/xhtml"
	nsXML     = "http://www.w3.org/XML/1998/namespace"

	roleLink     = "http://www.xbrl.org/2003/role/link"
	arcLinkbase  = "http://www.w3.org/1999/xlink/properties/linkbase"
	arcFootnote  = "http://www.xbrl.org/2003/arcrole/fact-footnote"
	arcParent    = "http://www.xbrl.org/2003/arcrole/parent-child"
	arcSummation = "http://www.xbrl.org/2003/arcrole/summation-item"
	arcLabel     = "http://www.xbrl.org/2003/arcrole/concept-label"
	arcReference = "http://www.xbrl.org/2003/arcrole/concept-reference"
	arcDomMem    = "http://xbrl.org/int/dim/arcrole/domain-member"
	arcDimDom    = "http://xbrl.org/int/dim/arcrole/dimension-domain"
	arcDimDef    = "http://xbrl.org/int/dim/arcrole/dimension-default"
	arcHcDim     = "http://xbrl.org/int/dim/arcrole/hypercube-dimension"
	arcAll       = "http://xbrl.org/int/dim/arcrole/all"
	arcNotAll    = "http://xbrl.org/int/dim/arcrole/notAll"
	roleLabel    = "http://www.xbrl.org/2003/role/label"
	roleTerse    = "http://www.xbrl.org/2003/role/terseLabel"
	roleVerbose  = "http://www.xbrl.org/2003/role/verboseLabel"
	roleTotal    = "http://www.xbrl.org/2003/role/totalLabel"
	roleDoc      = "http://www.xbrl.org/2003/role/documentation"
	refBase      = "http://www.xbrl.org/2003/role/"
)

// QN is an expanded name.
type QN struct{ NS, L string }

// Attr is an attribute; Q is set when its value is a qualified name.
type Attr struct {
	Name QN
	Val  string
	Q    *QN
}

// Node is an element. Kids are *Node, Text, Raw or QText.
type Node struct {
	Name  QN
	Attrs []Attr
	Kids  []interface{}
	// Free means that the order of the child elements carries no meaning.
	Free bool
	// Tight means that no white space may be added to the content.
	Tight bool
}

type Text string // escaped when written
type Raw string  // written as it is
type QText QN    // a qualified name as content
type Pad string  // text that may be surrounded by white space

func el(ns, local string, kids ...interface{}) *Node {
	n := &Node{Name: QN{ns, local}}
	for _, k := range kids {
		switch v := k.(type) {
		case Attr:
			n.Attrs = append(n.Attrs, v)
		case []Attr:
			n.Attrs = append(n.Attrs, v...)
		default:
			n.Kids = append(n.Kids, v)
		}
	}
	return n
}

func (n *Node) add(k ...interface{}) { n.Kids = append(n.Kids, k...) }

func at(local, val string) Attr         { return Attr{Name: QN{"", local}, Val: val} }
func atNS(ns, local, val string) Attr   { return Attr{Name: QN{ns, local}, Val: val} }
func atQ(ns, local string, val QN) Attr { return Attr{Name: QN{ns, local}, Q: &val} }
func xl(local, val string) Attr         { return atNS(nsXLINK, local, val) }

// Layout decides everything about a document that carries no meaning.
type Layout struct {
	R *Rng
	// Shuffle reorders free children and attributes.
	Shuffle bool
	// Prefixes: 0 conventional, 1 invented, 2 hostile (clashing with conventional ones)
	Prefixes int
	// Default allows a default namespace to be declared.
	Default bool
	Space   bool
	Comment bool
	// Twice binds some namespaces to two prefixes.
	Twice bool
	// Enc is the declared encoding, UTF-8 when empty; "none" leaves the declaration out.
	Enc string
	// Mark puts a byte order mark in front of UTF-8.
	Mark bool
	// Refs is the percentage of characters written as character references.
	Refs int
	// Quote allows attribute values between apostrophes.
	Quote bool
}

func plainLayout(r *Rng) *Layout { return &Layout{R: r} }

func anyLayout(r *Rng) *Layout {
	return &Layout{R: r, Shuffle: r.Pct(60), Prefixes: r.Intn(3), Default: r.Pct(50), Space: r.Pct(60), Comment: r.Pct(25), Twice: r.Pct(30)}
}

var conventional = map[string]string{
	nsXSD: "xsd", nsXLINK: "xlink", nsXBRLI: "xbrli", nsXBRLDT: "xbrldt", nsXBRLDI: "xbrldi", nsLINK: "link",
	nsXSI: "xsi", nsISO: "iso4217", nsNUM: "num", nsNONNUM: "nonnum", nsIX: "ix", nsIXT: "ixt", nsXHTML: "h",
}

var hostilePrefixes = []string{"xbrli", "link", "xlink", "xsi", "iso4217", "xbrldi", "id", "type", "href", "role", "label", "name", "order",
	"us-gaap", "dei", "contextRef", "nil", "decimals", "unitRef", "targetNamespace", "lang", "a", "x-1", "ns.2", "_u", "title", "scheme", "xs", "schemaLocation", "namespace", "from", "to", "arcrole", "weight", "abstract", "dimension", "num", "nonnum", "xbrldt", "xsd", "ix", "ixt"}

type xmlWriter struct {
	lay    *Layout
	prefix map[string][]string // namespace -> prefixes
	def    string              // default namespace
	b      strings.Builder
}

func collectNS(n *Node, order *[]string, seen map[string]bool, bare *bool) {
	use := func(ns string) {
		if ns == nsXML || ns == "" {
			return
		}
		if !seen[ns] {
			seen[ns] = true
			*order = append(*order, ns)
		}
	}
	if n.Name.NS == "" {
		*bare = true
	}
	use(n.Name.NS)
	for _, a := range n.Attrs {
		use(a.Name.NS)
		if a.Q != nil {
			use(a.Q.NS)
		}
	}
	for _, k := range n.Kids {
		switch v := k.(type) {
		case *Node:
			collectNS(v, order, seen, bare)
		case QText:
			use(v.NS)
		case Group:
			collectNS(&Node{Name: QN{n.Name.NS, ""}, Kids: v}, order, seen, bare)
		}
	}
}

// writeXML serialises a document. All namespaces are declared on the root.
func writeXML(root *Node, lay *Layout, extraNS ...string) []byte {
	w, _ := newXMLWriter(root, lay, extraNS...)
	return w.document(root)
}

func newXMLWriter(root *Node, lay *Layout, extraNS ...string) (*xmlWriter, []string) {
	w := &xmlWriter{lay: lay, prefix: map[string][]string{}}
	var order []string
	seen := map[string]bool{}
	bare := false
	collectNS(root, &order, seen, &bare)
	for _, ns := range extraNS {
		if !seen[ns] {
			seen[ns] = true
			order = append(order, ns)
		}
	}
	r := lay.R
	used := map[string]bool{"xml": true, "xmlns": true}
	fresh := func(want string) string {
		p := want
		for i := 1; used[p]; i++ {
			p = fmt.Sprintf("%s%d", want, i)
		}
		used[p] = true
		return p
	}
	// conventional prefixes, each for a namespace it does not usually stand for
	var swapped []string
	if lay.Prefixes == 2 && r.Pct(40) {
		for _, ns := range keysOf(conventional) {
			swapped = append(swapped, conventional[ns])
		}
		shuffle(r, swapped)
	}
	invent := func(ns string) string {
		if len(swapped) > 0 {
			p := swapped[0]
			swapped = swapped[1:]
			return fresh(p)
		}
		switch lay.Prefixes {
		case 0:
			if p, ok := conventional[ns]; ok {
				return fresh(p)
			}
			return fresh("c")
		case 1:
			return fresh(string(rune('a'+r.Intn(26))) + string(rune('a'+r.Intn(26))))
		default:
			p := pick(r, hostilePrefixes)
			if len(used) > 2 && r.Pct(20) {
				p = pick(r, keysOf(used))
				p = swapCase(p, r.Intn(len(p)))
				if strings.HasPrefix(strings.ToLower(p), "xml") {
					p = "a"
				}
			}
			return fresh(p)
		}
	}
	if lay.Prefixes != 0 {
		shuffle(r, order)
	}
	for _, ns := range order {
		w.prefix[ns] = []string{invent(ns)}
		if lay.Twice && r.Pct(40) {
			w.prefix[ns] = append(w.prefix[ns], invent(ns))
		}
	}
	if lay.Default && !bare && r.Pct(70) {
		w.def = root.Name.NS
		if r.Pct(30) {
			w.def = pick(r, order)
		}
	}
	return w, order
}

func (w *xmlWriter) document(root *Node) []byte {
	w.b.Reset()
	if w.lay.Comment {
		w.b.WriteString("<!-- generated -->\n")
	}
	w.element(root, 0, true)
	w.b.WriteString("\n")
	return encoded(w.lay, w.b.String())
}

// encoded declares the encoding and applies it; what cannot be said in it is left in UTF-8.
func encoded(lay *Layout, doc string) []byte {
	enc := lay.Enc
	var b []byte
	for _, c := range doc {
		if single(enc, c) == 0 && c != 0 {
			enc = "UTF-8"
			break
		}
		b = append(b, single(enc, c))
	}
	if enc == "" {
		enc = "UTF-8"
	}
	head := `<?xml version="1.0" encoding="` + enc + "\"?>\n"
	if lay.Quote && lay.R.Pct(50) {
		head = "<?xml version='1.0' encoding='" + enc + "' standalone='yes' ?>\n"
	}
	if enc == "none" {
		head = ""
	}
	if !singleByte(enc) {
		b = []byte(doc)
		if lay.Mark {
			head = "\ufeff" + head
		}
	}
	return append([]byte(head), b...)
}

func singleByte(enc string) bool {
	switch strings.ToLower(enc) {
	case "iso-8859-1", "windows-1252", "us-ascii":
		return true
	}
	return false
}

var cp1252 = map[rune]byte{'€': 0x80, '‚': 0x82, '„': 0x84, '…': 0x85, '‘': 0x91, '’': 0x92, '“': 0x93, '”': 0x94, '•': 0x95, '–': 0x96, '—': 0x97, '™': 0x99, 'œ': 0x9c}

// single gives the byte of a character, or 0 when the encoding has none. For
// an encoding that is not a single-byte one every character will do.
func single(enc string, c rune) byte {
	switch strings.ToLower(enc) {
	case "iso-8859-1", "windows-1252":
		if c < 0x80 || c >= 0xa0 && c <= 0xff {
			return byte(c)
		}
		if strings.ToLower(enc) == "windows-1252" {
			return cp1252[c]
		}
		return 0
	case "us-ascii":
		if c < 0x80 {
			return byte(c)
		}
		return 0
	}
	return 1
}

// chars writes characters of text or of an attribute value, some of them as references.
func (w *xmlWriter) chars(s string, esc func(string) string) string {
	if w.lay.Refs == 0 && !singleByte(w.lay.Enc) {
		return esc(s)
	}
	var b strings.Builder
	for _, c := range s {
		if single(w.lay.Enc, c) == 0 || w.lay.R.Pct(w.lay.Refs) {
			b.WriteString(fmt.Sprintf(pick(w.lay.R, []string{"&#%d;", "&#x%x;", "&#x%X;", "&#0%d;"}), c))
		} else {
			b.WriteString(esc(string(c)))
		}
	}
	return b.String()
}

func (w *xmlWriter) pref(ns string) string { return pick(w.lay.R, w.prefix[ns]) }

func (w *xmlWriter) elName(q QN) string {
	if q.NS == "" || q.NS == w.def && (len(w.prefix[q.NS]) == 0 || w.lay.R.Pct(80)) {
		return q.L
	}
	return w.pref(q.NS) + ":" + q.L
}

// qname writes a qualified name as content.
func (w *xmlWriter) qname(q QN) string {
	if q.NS == "" {
		return q.L
	}
	if q.NS == w.def && w.lay.R.Pct(30) {
		return q.L
	}
	return w.pref(q.NS) + ":" + q.L
}

func (w *xmlWriter) nl(depth int) {
	if w.lay.Space {
		w.b.WriteString("\n" + strings.Repeat("  ", depth))
		if w.lay.R.Pct(5) {
			w.b.WriteString("\t\r\n ")
		}
	}
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

// text writes character data, sometimes in pieces.
func (w *xmlWriter) text(s string) string {
	r := w.lay.R
	if !w.lay.Comment || len(s) < 2 || !r.Pct(15) {
		return w.chars(s, escText)
	}
	rs := []rune(s)
	i := 1 + r.Intn(len(rs))
	a, b := string(rs[:i]), string(rs[i:])
	switch r.Intn(3) {
	case 0:
		return w.chars(a, escText) + "<!-- c -->" + w.chars(b, escText)
	case 1:
		return w.chars(a, escText) + "<![CDATA[" + b + "]]>"
	}
	return "<![CDATA[" + a + "]]>" + w.chars(b, escText)
}

func escAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "\n", "&#10;", "\t", "&#9;").Replace(s)
}

func (w *xmlWriter) element(n *Node, depth int, root bool) {
	r := w.lay.R
	name := w.elName(n.Name)
	var attrs []string
	for _, a := range n.Attrs {
		an := a.Name.L
		if a.Name.NS == nsXML {
			an = "xml:" + an
		} else if a.Name.NS != "" {
			an = w.pref(a.Name.NS) + ":" + an
		}
		val := w.chars(a.Val, escAttr)
		if a.Q != nil {
			val = w.qname(*a.Q)
		}
		if w.lay.Quote && r.Pct(40) {
			attrs = append(attrs, an+" = '"+strings.ReplaceAll(val, "'", "&apos;")+"'")
			continue
		}
		attrs = append(attrs, an+`="`+val+`"`)
	}
	if root {
		for _, ns := range keysOf(w.prefix) {
			for _, p := range w.prefix[ns] {
				attrs = append(attrs, "xmlns:"+p+`="`+escAttr(ns)+`"`)
			}
		}
		if w.def != "" {
			attrs = append(attrs, `xmlns="`+escAttr(w.def)+`"`)
		}
	}
	if w.lay.Shuffle {
		shuffle(r, attrs)
	}
	w.b.WriteString("<" + name)
	for _, a := range attrs {
		w.b.WriteString(" ")
		if w.lay.Space && r.Pct(4) {
			w.b.WriteString("\n   ")
		}
		w.b.WriteString(a)
	}
	if len(n.Kids) == 0 {
		if n.Name.NS != nsXHTML && r.Pct(70) {
			w.b.WriteString("/>")
			return
		}
		w.b.WriteString("></" + name + ">")
		return
	}
	w.b.WriteString(">")
	kids := n.Kids
	if n.Free && w.lay.Shuffle {
		kids = append([]interface{}{}, kids...)
		shuffle(r, kids)
	}
	elements := false
	var flat []interface{}
	for _, k := range kids {
		if g, ok := k.(Group); ok {
			g = append(Group{}, g...)
			if w.lay.Shuffle {
				shuffle(r, g)
			}
			flat = append(flat, g...)
		} else {
			flat = append(flat, k)
		}
	}
	for _, k := range flat {
		switch v := k.(type) {
		case *Node:
			if !n.Tight {
				w.nl(depth + 1)
				if w.lay.Comment && r.Pct(8) {
					w.b.WriteString("<!-- <x y='" + "'> -->")
				}
			}
			elements = true
			w.element(v, depth+1, false)
		case Text:
			w.b.WriteString(w.text(string(v)))
		case Pad:
			if w.lay.Space && r.Pct(40) {
				w.b.WriteString("\n  " + w.text(string(v)) + " ")
			} else {
				w.b.WriteString(w.text(string(v)))
			}
		case Raw:
			w.b.WriteString(string(v))
		case QText:
			q := w.qname(QN(v))
			if w.lay.Space && r.Pct(40) {
				q = " \n" + q + "  "
			}
			w.b.WriteString(q)
		}
	}
	if elements && !n.Tight {
		w.nl(depth)
	}
	w.b.WriteString("</" + name + ">")
}
