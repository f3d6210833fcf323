package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C08", Level: "exploration", Quick: 2400, Thorough: 30000, Run: runC08,
		Rule: "a numeric fact displayed in some language; identified by reported value, stated precision, kind of concept and language"})
	register(&Check{ID: "C09", Level: "exploration", Quick: 1600, Thorough: 16000, Run: runC09,
		Rule: "a numeric fact displayed in some language; identified by its measures, the registry's entries for them, sign, kind of concept and language"})
}

// oneColumn generates a filing with one context whose numeric concepts are all reported and
// shown on the presentation grid of one role.
func oneColumn(w *World, c *Case, value func(x *Fact)) *Filing {
	p := stdProf()
	p.Inline, p.Ents, p.Ctxs, p.Fill, p.Nil, p.NumOnly, p.Text, p.Labels = 10, [2]int{1, 1}, [2]int{1, 1}, 100, 0, true, 0, 80
	p.Roles, p.Foots, p.Members = [2]int{1, 1}, [2]int{0, 1}, 20
	p.Concepts = [2]int{6, 20}
	f := GenFiling(c.Rng, w, w.newID(), p)
	role := f.Roles[0]
	if role.PFile == nil {
		for _, lb := range f.LBs {
			if lb.Kind == "presentation" {
				role.PFile = lb
			}
		}
		role.PFile.Roles = append(role.PFile.Roles, role)
	}
	root := &PNode{Label: "root"}
	role.P = []*PNode{root}
	n := 0
	for _, x := range f.Facts {
		if root.C == nil {
			root.C = x.C
		} else {
			n++
			root.Kids = append(root.Kids, &PNode{C: x.C, Label: fmt.Sprintf("k%d", n), Order: strconv.Itoa(n)})
		}
		if x.Unit != nil {
			value(x)
		}
	}
	if root.C == nil || len(root.Kids) == 0 {
		return nil
	}
	f.WriteAny(w.folder(f.ID), c.Rng)
	c.FilingDir = w.folder(f.ID)
	return f
}

// eachCell calls back for every cell of a fact in the one column of the filing's grids.
func eachCell(w *World, c *Case, f *Filing, judge func(what string, x *Fact, cell map[string]OExpr)) {
	for _, n := range w.networks(c, f) {
		for _, g := range n.grids() {
			if s := g.shape(); s != "" {
				c.Fail("%s: %s", g.What, s)
				continue
			}
			if len(g.PeriodHeaders) > 1 {
				c.Fail("%s: %d columns for one context", g.What, len(g.PeriodHeaders))
				continue
			}
			for i := range g.FactualQuadrant {
				for _, cell := range g.FactualQuadrant[i] {
					x := f.Fact(g.Rows[i], f.Ctxs[0].ID)
					if x == nil || x.Unit == nil {
						continue
					}
					judge(g.What+" "+g.Rows[i], x, cell)
				}
			}
		}
	}
}

func digitsOf(c *Case, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch c.Intn(4) {
		case 0:
			b.WriteByte('0')
		case 1:
			b.WriteByte('9')
		default:
			b.WriteByte(byte('0' + c.Intn(10)))
		}
	}
	return b.String()
}

func (c *Case) decimal() string {
	var s string
	n := c.Intn(8)
	if c.Pct(25) {
		n = c.Intn(22)
	}
	s = digitsOf(c, n)
	if !c.Pct(10) {
		s = strings.TrimLeft(s, "0")
	}
	if s == "" && !c.Pct(10) {
		s = "0"
	}
	if c.Pct(15) {
		s += strings.Repeat("0", c.Intn(10))
	}
	if c.Pct(60) || s == "" {
		s += "." + digitsOf(c, c.In(1, 4+c.Intn(12)))
	} else if c.Pct(4) {
		s += "."
	}
	if c.Pct(35) {
		s = "-" + s
	} else if c.Pct(4) {
		s = "+" + s
	}
	if c.Pct(3) {
		s += fmt.Sprintf("e%d", c.In(-5, 6))
	}
	return s
}

func runC08(w *World, c *Case) {
	f := oneColumn(w, c, func(x *Fact) {
		x.Value = c.decimal()
		x.Dec = strconv.Itoa(c.In(-11, 11))
		switch c.Intn(6) {
		case 0:
			x.Dec = "INF"
		case 1:
			x.Dec = strconv.Itoa(c.In(-14, 14))
		case 2, 3:
			x.Dec = strconv.Itoa(c.In(-6, 4))
		}
		if c.Pct(10) {
			x.Raw = pick(c.Rng, []string{" ", "\n  "}) + x.Value + pick(c.Rng, []string{"", " \n"})
		}
	})
	if f == nil {
		return
	}
	defer w.drop(f)
	eachCell(w, c, f, func(what string, x *Fact, cell map[string]OExpr) {
		for _, lang := range keysOf(cell) {
			c.Eval()
			e := cell[lang]
			if s := numberOK(x, e); s != "" {
				c.Fail("%s (%s, decimals %s, %s) reported as %q is shown in %s as %q %q %q: %s",
					what, x.C.Type.L, x.Dec, x.Unit.ID, x.inner(), lang, e.Head, e.Core, e.Tail, s)
				return
			}
			c.Distinct(strings.TrimSpace(x.inner()), x.Dec, x.C.Kind, lang)
			c.Sample("%q decimals %s in %s: %q %q %q", x.Value, x.Dec, lang, e.Head, e.Core, e.Tail)
			c.Count("displays in "+lang, 1)
		}
		if len(cell) == 0 {
			c.Fail("%s: no display of %q", what, x.inner())
		}
	})
}

var shownNumber = regexp.MustCompile(`[0-9][0-9,  .]*(?:[eE][+-]?[0-9]+)?`)

// numberOK judges a displayed number.
func numberOK(x *Fact, e OExpr) string {
	full := e.Head + e.Core + e.Tail
	if e.InnerHtml != "" {
		return "a number shown as markup"
	}
	at := shownNumber.FindStringIndex(full)
	if at == nil && strings.Contains(x.Value, ".") && strings.Contains(full, strings.TrimSpace(x.inner())) {
		return ""
	}
	if at == nil {
		return "no number"
	}
	if at[0] > 0 && full[at[0]-1] == '.' {
		at[0]--
	}
	text := strings.TrimRight(full[at[0]:at[1]], "  ,")
	before, after := full[:at[0]], full[at[1]:]
	neg := false
	if strings.Contains(before, "(") {
		if !strings.Contains(after, ")") {
			return "an opening parenthesis without a closing one"
		}
		neg = true
	} else if strings.Contains(after, ")") {
		return "a closing parenthesis without an opening one"
	}
	if strings.HasSuffix(strings.TrimSpace(before), "-") {
		if neg {
			return "two negative signs"
		}
		neg = true
	}
	integer := text
	if i := strings.IndexAny(text, ".eE"); i >= 0 {
		integer = text[:i]
	}
	if strings.ContainsAny(integer, ",  ") {
		groups := strings.FieldsFunc(integer, func(r rune) bool { return r == ',' || r == ' ' || r == ' ' })
		for i, g := range groups {
			if i > 0 && len(g) != 3 || i == 0 && len(g) > 3 {
				return "digits not grouped in threes"
			}
		}
	}
	plain := strings.NewReplacer(",", "", " ", "", " ", "").Replace(text)
	if strings.HasSuffix(plain, ".") {
		plain += "0"
	}
	if strings.HasPrefix(plain, ".") {
		plain = "0" + plain
	}
	got, ok := new(big.Rat).SetString(plain)
	if !ok {
		return "unreadable number " + plain
	}
	if neg {
		got.Neg(got)
	}
	reported := strings.TrimPrefix(strings.TrimSpace(x.inner()), "+")
	if strings.HasSuffix(reported, ".") {
		reported += "0"
	}
	want, ok := new(big.Rat).SetString(strings.Replace(strings.Replace(reported, "-.", "-0.", 1), ".e", ".0e", 1))
	if !ok {
		panic("generated number " + reported)
	}
	p, exact := 0, x.Dec == "INF"
	if !exact {
		p, _ = strconv.Atoi(x.Dec)
	}
	isPct := x.C.Kind == kPct
	hasSign := strings.Contains(after, "%")
	if isPct && hasSign {
		want.Mul(want, big.NewRat(100, 1))
	} else if hasSign {
		return "a percent sign on a number that is no percentage"
	}
	diff := new(big.Rat).Sub(got, want)
	if exact {
		if diff.Sign() != 0 {
			return "the value differs though it is exact"
		}
		return ""
	}
	keep := p
	if isPct && hasSign {
		keep = p - 2
	}
	if keep < 2 {
		keep = 2
	}
	tol := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(keep)), nil))
	if diff.Abs(diff).Cmp(tol) >= 0 {
		return "the value differs by more than the digits that may be dropped"
	}
	if want.Sign() != 0 && got.Sign() != 0 && want.Sign() != got.Sign() {
		return "the sign differs"
	}
	if isPct || p <= -12 || p >= 12 {
		return ""
	}
	// significant digits
	head := strings.LastIndex(e.Head, "(") // digits in the head would not be marked
	if strings.ContainsAny(e.Head[head+1:], "0123456789") {
		return "digits before the significant ones"
	}
	intLen := 0
	for _, r := range integer {
		if r >= '0' && r <= '9' {
			intLen++
		}
	}
	if intLen+p <= 0 {
		return ""
	}
	core := 0
	for _, r := range e.Core {
		if r >= '0' && r <= '9' {
			core++
		}
	}
	if core != intLen+p {
		return fmt.Sprintf("%d digits are marked significant instead of %d", core, intLen+p)
	}
	return ""
}

func (w *World) unitDef(q QN) *UnitDef {
	for i := range w.UTR {
		if w.UTR[i].NS == q.NS && w.UTR[i].ID == q.L {
			return &w.UTR[i]
		}
	}
	return nil
}

func runC09(w *World, c *Case) {
	n := 100 + c.Intn(1000)
	f := oneColumn(w, c, func(x *Fact) {
		n += 7
		x.Value = strconv.Itoa(n)
		if x.C.Kind == kPct || c.Pct(30) {
			x.Value = fmt.Sprintf("0.%d", n)
		}
		if c.Pct(35) {
			x.Value = "-" + x.Value
		}
		x.Dec = pick(c.Rng, []string{"0", "2", "-2", "INF", "-3"})
	})
	if f == nil {
		return
	}
	defer w.drop(f)
	eachCell(w, c, f, func(what string, x *Fact, cell map[string]OExpr) {
		for _, lang := range keysOf(cell) {
			c.Eval()
			e := cell[lang]
			if s := w.unitOK(x, e); s != "" {
				c.Fail("%s %q in unit %v/%v (registry: %s / %s) is shown in %s as %q %q %q: %s", what, x.Value, x.Unit.Num, x.Unit.Den,
					toJSON(w.unitDef(x.Unit.Num)), toJSON(w.unitDef(x.Unit.Den)), lang, e.Head, e.Core, e.Tail, s)
				return
			}
			c.Distinct(x.Unit.Num, x.Unit.Den, w.unitDef(x.Unit.Num), w.unitDef(x.Unit.Den), strings.HasPrefix(x.Value, "-"), x.C.Kind, lang)
			c.Sample("%s in %v/%v: %q %q %q", x.Value, x.Unit.Num, x.Unit.Den, e.Head, e.Core, e.Tail)
			if x.Unit.Den.L != "" {
				c.Count("ratios", 1)
			}
			if w.unitDef(x.Unit.Num) == nil {
				c.Count("unregistered", 1)
			}
		}
		if len(cell) == 0 {
			c.Fail("%s: no display of %q", what, x.inner())
		}
	})
}

var squeeze = strings.NewReplacer(" ", "", " ", "", "\n", "", "\t", "")

func (w *World) unitOK(x *Fact, e OExpr) string {
	full := e.Head + e.Core + e.Tail
	at := shownNumber.FindStringIndex(full)
	if at == nil {
		return "no number"
	}
	before := squeeze.Replace(strings.NewReplacer("(", "", "-", "").Replace(full[:at[0]]))
	after := squeeze.Replace(strings.NewReplacer(")", "", "%", "").Replace(full[at[1]:]))
	num, den := w.unitDef(x.Unit.Num), w.unitDef(x.Unit.Den)
	short := func(d *UnitDef) string {
		if d.Symbol != "" {
			return squeeze.Replace(d.Symbol)
		}
		return squeeze.Replace(d.Name)
	}
	wantBefore := ""
	wantAfter := []string{""}
	if num != nil {
		if num.Symbol != "" {
			wantBefore = squeeze.Replace(num.Symbol)
		} else {
			wantAfter = []string{squeeze.Replace(num.Name)}
			if x.C.Kind == kPct {
				wantAfter = append(wantAfter, "")
			}
		}
	}
	if den != nil {
		var more []string
		for _, a := range wantAfter {
			more = append(more, a+"/"+short(den))
			if num == nil {
				more = append(more, a)
			}
		}
		wantAfter = more
	}
	if num == nil || x.Unit.Den.L != "" && den == nil {
		// a measure that is not registered may be shown by its own name
		for _, a := range append([]string{}, wantAfter...) {
			if num == nil {
				wantAfter = append(wantAfter, x.Unit.Num.L+a)
			}
			if x.Unit.Den.L != "" && den == nil {
				wantAfter = append(wantAfter, a+"/", a+"/"+x.Unit.Den.L)
			}
		}
	}
	if before != wantBefore {
		return fmt.Sprintf("%q before the number instead of %q", before, wantBefore)
	}
	for _, a := range wantAfter {
		if a == after {
			return ""
		}
	}
	return fmt.Sprintf("%q after the number, expected one of %q", after, wantAfter)
}
