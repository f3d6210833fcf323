package main

// Documents hold, among the parts that count, parts that miss something they
// cannot do without. Such a part says nothing, and it says nothing about the
// parts around it either.

// cripple gives a copy of a part that misses something it cannot do without,
// or nil where every part of the kind is good for something.
func cripple(r *Rng, n *Node) *Node {
	c := *n
	c.Kids = append([]interface{}{}, n.Kids...)
	lose := func(locals ...string) *Node {
		gone := pick(r, locals)
		if r.Pct(50) {
			c.Attrs = without(c.Attrs, gone)
			return &c
		}
		c.Attrs = append([]Attr{}, c.Attrs...)
		for i, a := range c.Attrs {
			if a.Name.L == gone {
				c.Attrs[i] = Attr{Name: a.Name}
			}
		}
		return &c
	}
	rename := func(local, val string) {
		c.Attrs = append([]Attr{}, c.Attrs...)
		for i, a := range c.Attrs {
			if a.Name.NS == "" && a.Name.L == local {
				c.Attrs[i].Val = val
			}
		}
	}
	switch n.Name {
	case QN{nsLINK, "loc"}:
		return lose("type", "href", "label")
	case QN{nsLINK, "presentationArc"}, QN{nsLINK, "calculationArc"}, QN{nsLINK, "definitionArc"}, QN{nsLINK, "labelArc"}:
		return lose("type", "arcrole", "from", "to")
	case QN{nsLINK, "label"}:
		return lose("type", "label")
	case QN{nsLINK, "roleRef"}:
		return lose("roleURI", "href")
	case QN{nsLINK, "roleType"}:
		rename("id", "broken")
		return lose("roleURI")
	case QN{nsLINK, "linkbaseRef"}, QN{nsLINK, "schemaRef"}:
		return lose("href")
	case QN{nsLINK, "presentationLink"}, QN{nsLINK, "calculationLink"}, QN{nsLINK, "definitionLink"}, QN{nsLINK, "labelLink"}:
		c.Kids = nil
		return lose("type", "role")
	case QN{nsXSD, "element"}:
		rename("id", "broken_id")
		rename("name", "BrokenName")
		return lose("name", "id")
	case QN{nsXSD, "include"}, QN{nsXSD, "import"}:
		return lose("schemaLocation")
	case QN{nsXBRLI, "context"}:
		if r.Pct(50) {
			return lose("id")
		}
		rename("id", "broken_context")
		c.Kids = nil
		return &c
	case QN{nsXBRLI, "unit"}:
		if r.Pct(50) {
			return lose("id")
		}
		rename("id", "broken_unit")
		c.Kids = nil
		return &c
	}
	return nil
}

// cripples puts a few such parts into a document, each beside the part it was
// made from.
func cripples(r *Rng, root *Node) {
	left := r.In(1, 4)
	var list func(kids []interface{}) []interface{}
	list = func(kids []interface{}) []interface{} {
		var ret []interface{}
		for _, k := range kids {
			switch v := k.(type) {
			case Group:
				k = Group(list(v))
			case *Node:
				v.Kids = list(v.Kids)
				if left > 0 && r.Pct(12) {
					if c := cripple(r, v); c != nil {
						left--
						ret = append(ret, c)
					}
				}
			}
			ret = append(ret, k)
		}
		return ret
	}
	root.Kids = list(root.Kids)
}

// without gives the attributes other than the one of a local name.
func without(attrs []Attr, local string) []Attr {
	var ret []Attr
	for _, a := range attrs {
		if a.Name.L != local {
			ret = append(ret, a)
		}
	}
	return ret
}
