package main

import (
	"fmt"
	"strconv"
	"strings"
)

type Kind int

const (
	kNum Kind = iota
	kPct
	kStr
	kText
	kAbstract
	kHypercube
	kDim
	kTypedDim
	kMember
	kTypedDom
)

type Concept struct {
	Sch      *Schema
	Name, ID string
	Type     QN
	Subst    QN
	Abstract bool
	Nillable bool
	Period   string
	Balance  string
	Domain   *Concept   // of a typed dimension
	Leaves   []*Concept // of a structured typed domain
	Kind     Kind
	// abstract and nillable as written ("" when left out)
	AbsText, NilText string
}

func (c *Concept) Href() string { return c.Sch.Loc + "#" + c.ID }

func (c *Concept) reportable() bool { return c.Kind <= kText }

type Role struct {
	URI, ID, Title string
	Sch            *Schema
	P              []*PNode
	PFile          *Linkbase
	C              []*CArc
	CFile          *Linkbase
	D              []*DNet
}

// PNode is a node of a presentation forest.
type PNode struct {
	C     *Concept
	Label string
	Order string
	Kids  []*PNode
}

type CArc struct {
	From, To          *Concept
	FromLoc, ToLoc    string
	Order, Weight     string
	OrderVal, WeigVal float64
}

// DArc is a dimensional arc.
type DArc struct {
	From, To   *Concept
	Arcrole    string
	Order      string
	Closed     string // "" when not given
	Usable     string
	Element    string
	TargetRole string
}

// DNet is the definition network of one role in one file.
type DNet struct {
	File  *Linkbase
	Arcs  []*DArc
	Label map[*Concept]string
}

type LabelRes struct {
	Label, Role, Lang, Text string
}

type LabelArcM struct{ From, To, Arcrole string }

type LocM struct{ Label, Href string }

type LabelLinkM struct {
	Locs  []LocM
	Res   []LabelRes
	Arcs  []LabelArcM
	Role  string
	Extra []*Node
}

type Linkbase struct {
	Kind  string // presentation, calculation, definition, label
	Loc   string
	Roles []*Role // roles referred to
	Label []*LabelLinkM
}

type Schema struct {
	Loc, NS  string
	Global   bool
	Concepts []*Concept
	Roles    []*Role
	Imports  []*Schema
	Includes []*Schema
	LBs      []*Linkbase
	// written once per world when shared
	shared bool
}

type Member struct {
	Dim      *Concept
	Mem      *Concept // explicit
	Val      string   // typed
	Nested   []TypedLeaf
	Scenario bool
}

// TypedLeaf is an element of a structured typed member.
type TypedLeaf struct {
	C   *Concept
	Val string
}

type Ent struct{ Scheme, ID string }

type Context struct {
	ID         string
	Ent        Ent
	Start, End string // Start is empty for instants
	Members    []Member
}

func (c *Context) period() string {
	if c.Start != "" {
		return c.Start + "/" + c.End
	}
	return c.End
}

type Unit struct {
	ID       string
	Num, Den QN // Den.L is empty unless a ratio
}

type Fact struct {
	ID   string
	C    *Concept
	Ctx  *Context
	Unit *Unit
	Dec  string // decimals attribute, "" when none
	Nil  bool
	// how nil is spelled
	NilText string
	Value   string // as reported, unescaped
	Raw     string // the raw inner XML, when not the escaped value
}

func (f *Fact) inner() string {
	if f.Raw != "" {
		return f.Raw
	}
	return escText(f.Value)
}

type Foot struct {
	ID, Label, Lang, Text string
}

type FootLink struct {
	Title string
	Locs  []LocM
	Foots []*Foot
	Arcs  []LabelArcM
}

type Filing struct {
	ID      string
	Entry   string
	Inline  bool
	Refs    []*Schema
	Schemas []*Schema // local and global
	Roles   []*Role
	LBs     []*Linkbase
	Ents    []Ent
	Ctxs    []*Context
	Units   []*Unit
	Facts   []*Fact
	Foots   []*FootLink
	Dims    []*Concept
	// inline document
	Tagged map[*Fact]bool
	// names by which facts are tagged, filled in by the writer
	TagName map[*Fact]string
	// extra tags without a fact: name -> context
	GhostTags []GhostTag
	Images    map[string][]byte
	DocBody   string // extra markup of the inline document
	Doc       []byte // as written
	// local names per role
	facts map[string]*Fact
	Salt  int
}

type GhostTag struct {
	C    *Concept
	Ctx  string
	Name string
}

func (f *Filing) Fact(href, ctx string) *Fact {
	if f.facts == nil {
		f.facts = map[string]*Fact{}
		for _, x := range f.Facts {
			k := x.C.Href() + "|" + x.Ctx.ID
			if f.facts[k] == nil {
				f.facts[k] = x
			}
		}
	}
	return f.facts[href+"|"+ctx]
}

func (f *Filing) Locals() []*Schema {
	var ret []*Schema
	for _, s := range f.Schemas {
		if !s.Global {
			ret = append(ret, s)
		}
	}
	return ret
}

func (f *Filing) Concepts() []*Concept {
	var ret []*Concept
	for _, s := range f.Schemas {
		ret = append(ret, s.Concepts...)
	}
	return ret
}

func (f *Filing) byHref() map[string]*Concept {
	ret := map[string]*Concept{}
	for _, c := range f.Concepts() {
		ret[c.Href()] = c
	}
	return ret
}

// footnotes attached to a fact, as texts
func (f *Filing) FootsOf(x *Fact) []string {
	if x == nil || x.ID == "" {
		return nil
	}
	var ret []string
	seen := map[string]bool{}
	for _, l := range f.Foots {
		for _, a := range l.Arcs {
			if a.Arcrole != arcFootnote {
				continue
			}
			hit := false
			for _, loc := range l.Locs {
				if loc.Label == a.From && strings.HasSuffix(loc.Href, "#"+x.ID) {
					hit = true
				}
			}
			if !hit {
				continue
			}
			for _, fn := range l.Foots {
				if fn.Label == a.To && !seen[fn.ID] {
					seen[fn.ID] = true
					ret = append(ret, fn.Text)
				}
			}
		}
	}
	return ret
}

// Pack is an expected label pack: "role|language" -> text
type Pack map[string]string

func shownRole(role string) string {
	switch role {
	case roleLabel:
		return "Default"
	case roleTerse:
		return "Terse"
	case roleVerbose:
		return "Verbose"
	}
	return ""
}

func shownLang(lang string) string {
	switch lang {
	case "en", "en-US":
		return langEN
	case "es":
		return langES
	}
	return ""
}

const (
	langPure  = "Unlabelled"
	langBrief = "Truncated"
	langEN    = "en - english"
	langES    = "es - español"
)

// Labels gives the labels the linkbases attach to a concept.
func (f *Filing) Labels(href string) Pack {
	ret := Pack{"Default|" + langPure: href}
	if i := strings.Index(href, "#"); i >= 0 {
		ret["Default|"+langBrief] = href[i:]
	}
	for _, lb := range f.LBs {
		for _, l := range lb.Label {
			for _, loc := range l.Locs {
				if loc.Href != href {
					continue
				}
				for _, a := range l.Arcs {
					if a.From != loc.Label || a.Arcrole != arcLabel {
						continue
					}
					for _, res := range l.Res {
						if res.Label == a.To && shownRole(res.Role) != "" && shownLang(res.Lang) != "" {
							ret[shownRole(res.Role)+"|"+shownLang(res.Lang)] = res.Text
						}
					}
				}
			}
		}
	}
	return ret
}

func num(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(fmt.Sprint("not a number: ", s))
	}
	return v
}
